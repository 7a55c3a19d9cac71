//! Seeded generators of broker scenarios, one per property; all of them share the vocabulary.
use crate::bscn::*;
use crate::hist::hex;
use crate::mq::{self, *};
use tokio::sim::Rng;

const TOPICS: &[&str] = &["a", "a/b", "a/b/c", "x/y", "x", "a/c", "b/", "/a", "deep/er/than/that/5"];
const FILTERS: &[&str] = &[
    "a", "a/b", "a/+", "a/#", "#", "+/b", "x/y", "+", "a/b/c", "+/+", "x/#", "+/y", "a/+/c", "b/", "/a", "+/", "deep/#", "zz",
];
/// levels that are empty, deep, `$`-prefixed, spelt alike or not ASCII
const WIDE_T: &[&str] = &[
    "$x/y", "$x", "$SYS/a/b", "a/$x/y", "deep/er", "deep/er/than/that/5/6/7", "/", "//", "a//b", "/a/b", "a b", "a ", " a/b", "A/B", "x/\u{ff}\u{4e2d}/y", "a/b/c/d",
];
const WIDE_F: &[&str] = &[
    "$x/+", "$x/#", "$x", "$SYS/#", "$SYS/+/b", "a/+/y", "a/$x/#", "deep/er/than/#", "deep/er/than/that/#", "deep/er/#", "deep/er/than/that/5/#", "deep/+/than/+/5/6/7",
    "deep/er/than/that/5/6/7/#", "/", "//", "+/+/+", "a//b", "a//+", "a/+/b", "/+", "/#", "/+/b", "+/b", "A/+", "A/#", "x/\u{ff}\u{4e2d}/+", "x/\u{ff}\u{4e2d}/y", "+/#", "#", "+",
    "a/b/c/#", "a/b/+/#", "a/b/+/d", "+/+/+/+", "a b",
];
const IDS: &[&[&str]] = &[&["c0", "c1", "c2", "c3", "c4"], &["c", "c0", "c00", "C0", "c0/"], &["\u{4e2d}", "\u{4e2d}\u{6587}", "cc", "c c", "c"]];

pub fn pick<'a, T>(r: &mut Rng, v: &'a [T]) -> &'a T {
    &v[r.below(v.len() as u64) as usize]
}
fn s(x: &str) -> String {
    x.to_string()
}

pub fn knobs(r: &mut Rng) -> Knobs {
    let sched = *pick(r, &[0u8, 1, 1, 1, 1, 2, 2]);
    Knobs {
        sched,
        preempt: *pick(r, &[0.0, 0.0, 0.05, 0.3]),
        reorder: *pick(r, &[0.2, 0.5, 0.9]),
        select_random: !r.chance(0.1),
        latency_us: *pick(r, &[10, 100, 1000, 5000]),
        jitter_us: *pick(r, &[0, 500, 5_000, 20_000, 100_000]),
        jitter_p: *pick(r, &[0.05, 0.3, 0.8]),
        split_p: *pick(r, &[0.0, 0.1, 0.5]),
        window: *pick(r, &[1024, 8192, 65536, 65536]),
        timer_late_us: 0,
        max_steps: 3_000_000,
        max_time_s: 3600,
    }
}

fn conn(cid: &str) -> Conn {
    Conn { cid: s(cid), ping: 60, ..Default::default() }
}
fn auditor() -> Vec<Op> {
    vec![
        Op::Connect(Conn { cid: s("aud"), clean: true, ping: 50, ka: 4, ..Default::default() }),
        Op::Sub(vec![(s("#"), 1)]),
        Op::Await(8000),
    ]
}
fn filters(r: &mut Rng, k: u64) -> Vec<(String, u8)> {
    let n = r.range(1, k);
    let mut v: Vec<(String, u8)> = vec![];
    let wide = r.chance(0.2);
    for _ in 0..n {
        let f = s(if wide { pick(r, WIDE_F) } else { pick(r, FILTERS) });
        if v.iter().any(|x| x.0 == f) {
            continue;
        }
        let mut o = *pick(r, &[0u8, 1, 1, 1, 2]);
        if r.chance(0.15) {
            o |= 4;
        }
        if r.chance(0.2) {
            // retain as published, retain handling
            o |= *pick(r, &[0x08u8, 0x10, 0x20, 0x28]);
        }
        v.push((f, o));
    }
    v
}
fn publ(r: &mut Rng, maxn: u64) -> Op {
    Op::Pub {
        topic: s(if r.chance(0.2) { pick(r, WIDE_T) } else { pick(r, TOPICS) }),
        qos: *pick(r, &[0u8, 1, 1]),
        n: r.range(1, maxn) as u32,
        size: *pick(r, &[0u32, 20, 200, 3000]),
        gap: *pick(r, &[0u32, 0, 0, 5, 40]),
        dup: r.chance(0.1),
        pm: if r.chance(0.3) { r.below(256) as u8 } else { 0 },
    }
}
fn wpm(r: &mut Rng) -> u8 {
    if r.chance(0.3) {
        r.below(256) as u8
    } else {
        0
    }
}
fn pubt(topic: &str, qos: u8, n: u32, size: u32, gap: u32) -> Op {
    Op::Pub { topic: s(topic), qos, n, size, gap, dup: false, pm: 0 }
}
fn some_end(r: &mut Rng) -> Vec<Op> {
    match r.below(9) {
        0 => vec![Op::Close],
        1 => vec![Op::Rst],
        2 => vec![Op::Crash { lose: r.below(400) as usize, rst: true }],
        3 => vec![Op::Disconnect(0), Op::AwaitClosed(6000), Op::Close],
        4 => vec![Op::Disconnect(*pick(r, &[4u8, 0x80, 0x81])), Op::AwaitClosed(6000), Op::Close],
        5 => vec![Op::HalfOpen],
        6 => vec![Op::Shut],
        7 => vec![Op::Partial { pk: r.below(4) as u8, keep: r.range(1, 40) as usize }, Op::Close],
        _ => vec![Op::Crash { lose: 0, rst: false }],
    }
}
fn hard_end(r: &mut Rng) -> Vec<Op> {
    match r.below(4) {
        0 => vec![Op::Close],
        1 => vec![Op::Rst],
        2 => vec![Op::Crash { lose: r.below(400) as usize, rst: true }],
        _ => vec![Op::HalfOpen],
    }
}

/// publishers and subscribers that come, go, and change their subscriptions
pub fn pubsub(r: &mut Rng, churn: bool) -> BScn {
    let mut scn = BScn { knobs: knobs(r), ..Default::default() };
    scn.cfg.channel = *pick(r, &[64, 256, 1024]);
    scn.cfg.max_ka = 20;
    let n = r.range(2, 5) as usize;
    let ids = IDS[*pick(r, &[0usize, 0, 1, 2])];
    for i in 0..n {
        let cid = s(ids[i]);
        let mut ops = vec![];
        let exp = if r.chance(0.6) { Some(*pick(r, &[30u32, 100])) } else { None };
        let mk = |r: &mut Rng, clean: bool| {
            let mut c = conn(&cid);
            c.clean = clean;
            c.ka = *pick(r, &[2u16, 3, 6]);
            c.exp = exp;
            c
        };
        let first_clean = r.chance(0.5);
        let mut c0 = mk(r, first_clean);
        if r.chance(0.1) {
            c0.cid = String::new();
        }
        ops.push(Op::Connect(c0));
        if r.chance(0.8) {
            ops.push(Op::Sub(filters(r, 4)));
        }
        ops.push(Op::Await(8000));
        ops.push(Op::Sync(1));
        let mut batch_ok = true;
        for _ in 0..r.range(2, 9) {
            match r.below(13) {
                0..=4 => ops.push(publ(r, 8)),
                5 => ops.push(Op::Sub(filters(r, 3))),
                6 => ops.push(Op::Unsub(filters(r, 3).into_iter().map(|x| x.0).collect())),
                7 => ops.push(Op::Ping),
                8 => ops.push(Op::Wait(r.range(1, 300) as u32)),
                9 => ops.push(Op::Await(8000)),
                10 if batch_ok => {
                    let mut b = vec![];
                    for _ in 0..r.range(2, 5) {
                        match r.below(4) {
                            0 => b.push(Op::Sub(filters(r, 2))),
                            1 => b.push(Op::Ping),
                            2 => b.push(Op::Unsub(filters(r, 2).into_iter().map(|x| x.0).collect())),
                            _ => b.push(publ(r, 3)),
                        }
                    }
                    ops.push(Op::Batch(b));
                }
                11 => ops.push(Op::AckMode(pick(r, &[Ack::All, Ack::Skip(2), Ack::Delay(30)]).clone())),
                _ if churn => {
                    ops.extend(some_end(r));
                    batch_ok = true;
                    ops.push(Op::Wait(*pick(r, &[0u32, 5, 200, 1500])));
                    let cl = r.chance(0.3);
                    let c = mk(r, cl);
                    ops.push(Op::Connect(c));
                    if r.chance(0.4) {
                        ops.push(Op::Sub(filters(r, 2)));
                    }
                }
                _ => ops.push(publ(r, 3)),
            }
        }
        ops.push(Op::Ping);
        ops.push(Op::Await(8000));
        ops.push(Op::Sync(2));
        // everything has come to rest: one more round everybody's state can be judged by
        ops.push(Op::Wait(1500));
        for _ in 0..r.below(3) {
            ops.push(publ(r, 2));
        }
        ops.push(Op::Ping);
        ops.push(Op::Await(8000));
        scn.actors.push(ops);
    }
    scn.settle = 6000 + scn.knobs.jitter_us / 200;
    scn
}

/// one session that ends and resumes while messages are unacknowledged
pub fn resume(r: &mut Rng) -> BScn {
    let mut scn = BScn { knobs: knobs(r), ..Default::default() };
    scn.cfg.channel = *pick(r, &[64, 256]);
    let exp = *pick(r, &[60u32, 200]);
    let nsub = r.range(1, 2);
    let rounds = r.range(1, 4);
    for k in 0..nsub {
        let cid = format!("s{k}");
        let mut ops = vec![];
        let mut c = conn(&cid);
        c.ka = 3;
        c.exp = Some(exp);
        c.clean = r.chance(0.5);
        c.ack = pick(r, &[Ack::None, Ack::None, Ack::First(2), Ack::Skip(2), Ack::Skip(3), Ack::All]).clone();
        let wn = *pick(r, &[0usize, 0, 300, 2000]);
        c.win = wn;
        ops.push(Op::Connect(c.clone()));
        if r.chance(0.3) {
            ops.push(Op::Sub(vec![(s("a/#"), 1), (s("a/b"), 1)]));
        } else {
            ops.push(Op::Sub(vec![(s(*pick(r, &["a/#", "#", "a/+", "a/b"])), *pick(r, &[1u8, 1, 1, 2]))]));
        }
        ops.push(Op::Await(8000));
        ops.push(Op::Sync(1));
        for j in 0..rounds {
            match r.below(4) {
                0 => ops.push(Op::Sync(10 + j as u32)), // after the publisher's round
                1 => ops.push(Op::Wait(r.range(0, 60) as u32)),
                2 => {
                    ops.push(Op::Sync(10 + j as u32));
                    ops.push(Op::AckHeld);
                    if r.chance(0.6) {
                        ops.push(Op::Ping);
                        ops.push(Op::Await(8000));
                    }
                }
                _ => ops.push(Op::Wait(r.range(0, 2000) as u32)),
            }
            let fast = r.chance(0.35);
            ops.extend(match r.below(6) {
                0 => vec![Op::Disconnect(0), Op::AwaitClosed(6000), Op::Close],
                5 => some_end(r),
                _ => hard_end(r),
            });
            ops.push(Op::Wait(*pick(r, &[0u32, 1, 20, 700])));
            let mut c2 = c.clone();
            c2.clean = r.chance(0.05);
            c2.ack = pick(r, &[Ack::None, Ack::All, Ack::First(1), Ack::First(3), Ack::Skip(2), Ack::Delay(20)]).clone();
            c2.nowait = r.chance(0.15);
            ops.push(Op::Connect(c2));
            if fast {
                // fails somewhere in the middle of the redelivery
                ops.push(Op::Wait(r.range(0, 12) as u32));
                ops.extend(hard_end(r));
                let mut c3 = c.clone();
                c3.clean = false;
                c3.ack = pick(r, &[Ack::None, Ack::All, Ack::First(2)]).clone();
                ops.push(Op::Wait(*pick(r, &[0u32, 3, 50])));
                ops.push(Op::Connect(c3));
            }
            if r.chance(0.6) {
                ops.push(Op::Wait(r.range(100, 1500) as u32));
            }
            ops.push(Op::Ping);
            ops.push(Op::Await(8000));
        }
        ops.push(Op::Wait(7000));
        ops.push(Op::Sync(90));
        ops.push(Op::Ping);
        ops.push(Op::Await(8000));
        scn.actors.push(ops);
    }
    let np = r.range(1, 2);
    for k in 0..np {
        let mut ops = vec![];
        let mut c = conn(&format!("p{k}"));
        c.clean = true;
        c.ka = 4;
        ops.push(Op::Connect(c));
        ops.push(Op::Sync(1));
        for j in 0..rounds {
            for _ in 0..r.range(1, 3) {
                ops.push(pubt(*pick(r, &["a/b", "a/b", "a/c"]), *pick(r, &[1u8, 1, 1, 0]), r.range(1, 7) as u32, *pick(r, &[0u32, 100, 700]), *pick(r, &[0u32, 0, 3, 25])));
            }
            ops.push(Op::Ping);
            ops.push(Op::Await(8000));
            ops.push(Op::Sync(10 + j as u32));
            ops.push(Op::Wait(*pick(r, &[0u32, 0, 10, 800])));
        }
        ops.push(Op::Sync(90));
        ops.push(pubt("a/b", 1, 2, 0, 0));
        ops.push(Op::Ping);
        ops.push(Op::Await(8000));
        scn.actors.push(ops);
    }
    scn.settle = 7000;
    scn
}

/// subscribers with a receive maximum
pub fn flow(r: &mut Rng) -> BScn {
    if r.chance(0.4) {
        let mut scn = resume(r);
        for ops in scn.actors.iter_mut() {
            let sub = ops.iter().any(|o| matches!(o, Op::Sub(_)));
            if !sub {
                continue;
            }
            for o in ops.iter_mut() {
                if let Op::Connect(c) = o {
                    c.rmax = *pick(r, &[0, 1, 1, 2, 3, 5]);
                }
            }
            if r.chance(0.8) {
                // before the last wait
                let k = ops.iter().rposition(|o| matches!(o, Op::Wait(7000))).unwrap_or(ops.len());
                ops.splice(k..k, [Op::AckMode(Ack::All), Op::AckHeld]);
            }
        }
        return scn;
    }
    let mut scn = BScn { knobs: knobs(r), ..Default::default() };
    scn.cfg.channel = *pick(r, &[256, 512]);
    let nsub = r.range(1, 3);
    for k in 0..nsub {
        let mut ops = vec![];
        let mut c = conn(&format!("s{k}"));
        c.clean = true;
        c.rmax = *pick(r, &[0, 1, 1, 2, 3, 5, 10, 40, 65535]);
        c.win = *pick(r, &[0usize, 0, 0, 300]);
        let modes = [Ack::None, Ack::First(1), Ack::First(3), Ack::Skip(2), Ack::Skip(3), Ack::Delay(1), Ack::Delay(20), Ack::All];
        c.ack = pick(r, &modes).clone();
        ops.push(Op::Connect(c.clone()));
        let mut f = vec![(s(*pick(r, &["a/#", "#", "a/+", "a/b"])), *pick(r, &[0u8, 1, 1, 1, 1]))];
        if r.chance(0.3) {
            f.push((s("a/c"), 1));
        }
        ops.push(Op::Sub(f));
        ops.push(Op::Await(8000));
        ops.push(Op::Sync(1));
        for _ in 0..r.range(1, 6) {
            ops.push(Op::Wait(*pick(r, &[0u32, 1, 5, 30, 200])));
            match r.below(5) {
                0 => ops.push(Op::AckMode(pick(r, &modes).clone())),
                1 | 2 => ops.push(Op::AckHeld),
                3 => {
                    ops.push(Op::Ping);
                    ops.push(Op::Await(8000));
                }
                _ => ops.push(pubt(*pick(r, &["a/b", "a/c", "x"]), *pick(r, &[1u8, 1, 0]), r.range(1, 4) as u32, 0, 0)),
            }
        }
        if r.chance(0.7) {
            ops.push(Op::AckMode(pick(r, &[Ack::All, Ack::All, Ack::Delay(5)]).clone()));
            ops.push(Op::AckHeld);
        }
        ops.push(Op::Ping);
        ops.push(Op::Await(8000));
        ops.push(Op::Wait(1000));
        ops.push(Op::Ping);
        ops.push(Op::Await(8000));
        scn.actors.push(ops);
    }
    for k in 0..r.range(1, 2) {
        let mut ops = vec![];
        let mut c = conn(&format!("p{k}"));
        c.clean = true;
        ops.push(Op::Connect(c));
        ops.push(Op::Sync(1));
        for _ in 0..r.range(1, 4) {
            ops.push(pubt(*pick(r, &["a/b", "a/b", "a/c"]), *pick(r, &[1u8, 1, 1, 0]), r.range(1, 15) as u32, *pick(r, &[0u32, 100, 700]), *pick(r, &[0u32, 0, 3, 25])));
            ops.push(Op::Wait(*pick(r, &[0u32, 0, 10, 100])));
        }
        ops.push(Op::Ping);
        ops.push(Op::Await(8000));
        scn.actors.push(ops);
    }
    scn.settle = 9000;
    scn
}

/// the maximum session expiry interval is changed while the broker runs
fn changed_expiry(r: &mut Rng, scn: &mut BScn, within_ms: u64) {
    if !r.chance(0.3) {
        return;
    }
    let mut ops = vec![];
    for _ in 0..r.range(1, 4) {
        ops.push(Op::Wait(r.range(0, within_ms / 2) as u32));
        ops.push(Op::SetExpiry(*pick(r, &[0u64, 1, 3, 5, 8, 20, 45, 3600, 100_000, u32::MAX as u64, 1 << 32, (1 << 33) + 3, u64::MAX])));
    }
    scn.actors.push(ops);
}

/// clean start, resume and expiry of a few identifiers, with probes
pub fn sessions(r: &mut Rng, expiry: bool) -> BScn {
    let mut scn = BScn { knobs: knobs(r), ..Default::default() };
    scn.cfg.channel = 128;
    scn.cfg.expiry = *pick(r, &[0u32, 5, 5, 20, 20, 60, 60]);
    if r.chance(0.05) {
        scn.cfg.exp_extra = *pick(r, &[(1u64 << 32) - 1, 1 << 32, (1 << 32) + 1, u64::MAX - 100]);
    }
    let n = r.range(1, 3);
    for k in 0..n {
        let cid = if r.chance(0.1) { String::new() } else { format!("s{k}") };
        let mut ops = vec![];
        let mut had_will = false;
        for round in 0..r.range(2, 5) {
            let mut c = conn(&cid);
            c.ka = *pick(r, &[1u16, 3, 40]);
            c.clean = if round == 0 { r.chance(0.4) } else { r.chance(0.3) };
            c.exp = *pick(r, &[None, Some(0u32), Some(2), Some(6), Some(15), Some(30), Some(1000), Some(u32::MAX)]);
            if r.chance(0.2) && !had_will {
                had_will = true;
                c.will = Some(WillSpec { topic: s("w/s"), qos: 0, ..Default::default() });
            }
            c.ack = pick(r, &[Ack::All, Ack::None]).clone();
            ops.push(Op::Connect(c));
            if r.chance(0.6) {
                ops.push(Op::Sub(filters(r, 3)));
            }
            if r.chance(0.2) {
                ops.push(Op::Unsub(filters(r, 2).into_iter().map(|x| x.0).collect()));
            }
            ops.push(Op::Await(8000));
            ops.push(Op::Wait(r.range(100, 1500) as u32));
            if r.chance(0.5) {
                ops.push(Op::Wait(6000));
            }
            if expiry && r.chance(0.3) {
                // an idle connection ends, and the client is back right before or after the expiry
                if let Some(Op::Connect(c)) = ops.iter_mut().rev().find(|o| matches!(o, Op::Connect(_))) {
                    c.exp = Some(*pick(r, &[1u32, 2, 4, 30]));
                    c.ka = 40;
                }
                ops.push(Op::Wait(1200 + 4 * (scn.knobs.jitter_us + scn.knobs.latency_us) / 1000));
                ops.push(pick(r, &[Op::Close, Op::Rst]).clone());
                let e = match ops.iter().rev().find_map(|o| if let Op::Connect(c) = o { c.exp } else { None }) {
                    Some(e) => (e as u64).min(scn.cfg.expiry as u64 + scn.cfg.exp_extra) as u32,
                    None => 0,
                };
                ops.push(Op::Wait((e * 1000).saturating_sub(300) + r.range(0, 1500) as u32));
                continue;
            }
            ops.extend(some_end(r));
            let gap = if expiry {
                *pick(r, &[0u32, 500, 1500, 4000, 9000, 14000, 27000])
            } else {
                *pick(r, &[0u32, 0, 10, 300, 2000])
            };
            ops.push(Op::Wait(gap));
        }
        let mut c = conn(&cid);
        c.exp = Some(30);
        c.ka = 3;
        c.clean = r.chance(0.2);
        ops.push(Op::Connect(c));
        ops.push(Op::Wait(8000));
        ops.push(Op::Ping);
        ops.push(Op::Await(8000));
        scn.actors.push(ops);
    }
    let mut ops = vec![];
    let mut c = conn("p");
    c.clean = true;
    c.ka = 5;
    ops.push(Op::Connect(c));
    for _ in 0..r.range(15, 30) {
        let t = s(pick(r, TOPICS));
        ops.push(pubt(&t, *pick(r, &[0u8, 1, 1]), 1, 0, 0));
        ops.push(Op::Wait(r.range(200, 2500) as u32));
    }
    ops.push(Op::Ping);
    ops.push(Op::Await(8000));
    scn.actors.push(ops);
    changed_expiry(r, &mut scn, 60_000);
    scn.settle = 7000;
    scn
}

pub fn takeover(r: &mut Rng) -> BScn {
    let mut scn = BScn { knobs: knobs(r), ..Default::default() };
    scn.cfg.channel = *pick(r, &[2, 8, 64]);
    if r.chance(0.3) {
        scn.cfg.max_active = Some(4);
    }
    let exp = *pick(r, &[None, Some(60u32), Some(60)]);
    scn.actors.push(auditor());
    scn.actors[0].push(Op::Sync(0));
    let rounds = r.range(1, 3) as usize;
    let mut ops = vec![Op::Sync(0)];
    for k in 0..=rounds {
        let mut c = conn("t");
        c.exp = exp;
        c.ka = *pick(r, &[1u16, 3, 8]);
        c.clean = r.chance(0.25);
        c.win = *pick(r, &[0usize, 0, 200, 900]);
        if r.chance(0.7) {
            c.will = Some(WillSpec { topic: s("w/t"), qos: *pick(r, &[0u8, 1]), delay: if r.chance(0.2) { 2 } else { 0 }, retain: false, pm: wpm(r), size: 0 });
        }
        c.ack = pick(r, &[Ack::All, Ack::All, Ack::None]).clone();
        if k > 0 && r.chance(0.15) {
            c.nowait = true;
        }
        let mut pre = vec![];
        if k < rounds && r.chance(0.2) {
            c.ping = 0;
        }
        ops.push(Op::Connect(c));
        ops.append(&mut pre);
        if r.chance(0.6) {
            ops.push(Op::Sub(vec![(s("t/#"), 1)]));
        }
        if r.chance(0.8) {
            ops.push(Op::Await(8000));
        }
        // trouble for the connection that will be replaced
        if k < rounds {
            match r.below(6) {
                0 => {
                    ops.push(Op::ReadStop);
                    ops.push(Op::Wait(r.range(0, 3000) as u32));
                }
                1 => ops.push(Op::HalfOpen),
                2 => ops.push(Op::Wait(r.range(0, 500) as u32)),
                3 => ops.push(publ(r, 5)),
                _ => {}
            }
        }
        // what zombies do
        if k > 0 {
            ops.push(Op::Wait(*pick(r, &[0u32, 1, 600, 900])));
            for _ in 0..r.range(0, 3) {
                let z = match r.below(11) {
                    0 => Op::Close,
                    1 => Op::Rst,
                    2 => Op::Disconnect(0),
                    3 => Op::Disconnect(4),
                    4 => pubt("t/z", 1, 2, 0, 0),
                    5 => Op::Sub(vec![(s("zombie/#"), 1)]),
                    6 => Op::Unsub(vec![s("t/#")]),
                    7 => Op::Ping,
                    8 => Op::Raw(s("ffffffffff")),
                    9 => Op::Shut,
                    _ => Op::ReadResume,
                };
                ops.push(Op::On { back: 1, op: Box::new(z) });
                if r.chance(0.4) {
                    ops.push(Op::Wait(*pick(r, &[1u32, 100, 1200])));
                }
            }
        }
    }
    ops.push(Op::Wait(*pick(r, &[100u32, 7000, 14000])));
    ops.push(Op::Ping);
    ops.push(Op::Await(8000));
    ops.push(Op::Sync(5));
    ops.push(Op::Wait(7000));
    ops.push(Op::Ping);
    ops.push(Op::Await(8000));
    scn.actors.push(ops);
    // somebody publishing all the time
    let mut ops = vec![Op::Sync(0)];
    let mut c = conn("p");
    c.clean = true;
    c.ka = 6;
    ops.push(Op::Connect(c));
    for _ in 0..r.range(3, 12) {
        ops.push(pubt(*pick(r, &["t/1", "t/2", "zombie/1"]), *pick(r, &[0u8, 1]), r.range(1, 3) as u32, *pick(r, &[0u32, 100]), 0));
        ops.push(Op::Wait(*pick(r, &[1u32, 50, 400, 1500])));
    }
    ops.push(Op::Await(8000));
    ops.push(Op::Sync(5));
    ops.push(pubt("t/3", 1, 2, 0, 0));
    ops.push(pubt("zombie/2", 1, 1, 0, 0));
    ops.push(Op::Ping);
    ops.push(Op::Await(8000));
    scn.actors.push(ops);
    if r.chance(0.3) {
        // another identifier, to see that it is left alone
        scn.actors.push(vec![
            Op::Sync(0),
            Op::Connect(Conn { cid: s("other"), clean: true, ka: 4, ping: 60, ..Default::default() }),
            Op::Sub(vec![(s("t/#"), 1)]),
            Op::Await(8000),
        ]);
    }
    scn.settle = 8000;
    scn
}

pub fn wills(r: &mut Rng) -> BScn {
    let mut scn = BScn { knobs: knobs(r), ..Default::default() };
    scn.cfg.channel = 256;
    let mut a = auditor();
    if r.chance(0.3) {
        a[1] = Op::Sub(vec![(s("#"), *pick(r, &[5u8, 4, 0, 1]))]);
    }
    a.push(Op::Sync(0));
    scn.actors.push(a);
    let n = r.range(1, 4);
    for k in 0..n {
        let cid = format!("w{k}");
        let mut ops = vec![Op::Sync(0)];
        // the client comes back again and again, mostly before its will is due
        let chain = r.chance(0.35);
        for _ in 0..(if chain { r.range(2, 5) } else { r.range(1, 3) }) {
            let mut c = conn(&cid);
            c.exp = *pick(r, &[None, Some(60u32)]);
            c.ka = *pick(r, &[1u16, 2, 4]);
            c.clean = r.chance(0.4);
            if chain {
                c.clean = r.chance(0.2);
                c.exp = Some(60);
                if !r.chance(0.1) {
                    c.will = Some(WillSpec { topic: format!("w/{k}"), qos: r.below(2) as u8, delay: r.range(1, 4) as u32, retain: false, pm: wpm(r), size: 0 });
                }
                c.ping = 300;
                ops.push(Op::Connect(c));
                ops.push(Op::Wait(*pick(r, &[0u32, 10, 300, 1200, 5000])));
                match r.below(6) {
                    0 => ops.extend(vec![Op::Disconnect(*pick(r, &[0u8, 4, 4])), Op::AwaitClosed(6000), Op::Close]),
                    1 => {}
                    2 => ops.push(Op::Close),
                    _ => ops.extend(hard_end(r)),
                }
                ops.push(Op::Wait(*pick(r, &[0u32, 50, 300, 700, 900, 1500, 5000])));
                continue;
            }
            let delay = *pick(r, &[0u32, 0, 0, 1, 3, 6]);
            if delay > 0 {
                c.exp = Some(60);
            }
            if !r.chance(0.15) {
                c.will = Some(WillSpec { topic: format!("w/{k}"), qos: *pick(r, &[0u8, 1, 1, 2]), delay, retain: r.chance(0.1), pm: wpm(r), size: 0 });
            }
            if r.chance(0.15) {
                c.ping = 0;
            }
            c.nowait = r.chance(0.05);
            ops.push(Op::Connect(c));
            if r.chance(0.4) {
                ops.push(Op::Sub(vec![(s("q/#"), 1)]));
            }
            for _ in 0..r.below(3) {
                match r.below(4) {
                    0 => ops.push(pubt("q/1", 1, 3, 100, 0)),
                    1 => ops.push(Op::Ping),
                    2 => ops.push(Op::Await(5000)),
                    _ => ops.push(Op::Wait(r.range(1, 2500) as u32)),
                }
            }
            match r.below(5) {
                0 => ops.extend(vec![Op::Disconnect(0), Op::AwaitClosed(6000), Op::Close]),
                1 => {
                    // in one write with other packets before it
                    ops.push(Op::Batch(vec![pubt("q/2", 1, 2, 10, 0), Op::Disconnect(*pick(r, &[0u8, 4]))]));
                    ops.push(Op::AwaitClosed(6000));
                    ops.push(Op::Close);
                }
                2 => {
                    ops.push(match r.below(4) {
                        0 => Op::Raw(s("00")),
                        1 => Op::Raw(s("f0ffffffff")),
                        2 => Op::ConnectPk(conn("second")),
                        _ => Op::PingStop,
                    });
                    ops.push(Op::AwaitClosed(9000));
                    ops.push(Op::Wait(1));
                }
                _ => ops.extend(some_end(r)),
            }
            ops.push(Op::Wait(*pick(r, &[0u32, 100, 700, 1500, 4000, 9000])));
        }
        scn.actors.push(ops);
    }
    if r.chance(0.5) {
        // an observer with another QoS
        scn.actors.push(vec![
            Op::Sync(0),
            Op::Connect(Conn { cid: s("obs"), clean: true, ka: 4, ping: 60, ..Default::default() }),
            Op::Sub(vec![(s("w/+"), *pick(r, &[0u8, 1, 2]))]),
            Op::Await(8000),
        ]);
    }
    scn.settle = 30000;
    scn
}

pub fn limit(r: &mut Rng) -> BScn {
    let mut scn = BScn { knobs: knobs(r), ..Default::default() };
    let max = r.range(1, 4) as u32;
    scn.cfg.max_active = Some(max);
    scn.cfg.channel = 32;
    scn.cfg.max_ka = 4;
    let n = r.range(2, 5);
    for k in 0..n {
        let mut ops = vec![];
        for _ in 0..r.range(1, 5) {
            let cid = format!("l{}", if r.chance(0.2) { r.below(n) } else { k });
            let mut c = conn(&cid);
            c.ka = 2;
            c.clean = r.chance(0.5);
            c.exp = *pick(r, &[None, Some(60u32)]);
            if r.chance(0.3) {
                c.will = Some(WillSpec { topic: s("w/l"), qos: 0, ..Default::default() });
            }
            c.nowait = r.chance(0.15);
            if r.chance(0.2) {
                c.ping = 0;
            }
            if r.chance(0.15) {
                c.cid = String::new();
            }
            ops.push(Op::Connect(c));
            match r.below(8) {
                0 => ops.push(Op::Wait(r.range(0, 500) as u32)),
                1 => ops.push(Op::Sub(vec![(s("a/#"), 1)])),
                2 => ops.push(publ(r, 4)),
                3 => ops.push(Op::Raw(s(*pick(r, &["00", "36ffffffffff", "ffff", "300100", "3605"])))),
                4 => ops.push(Op::ConnectPk(conn("again"))),
                5 => ops.push(Op::ReadStop),
                _ => {}
            }
            if r.chance(0.5) {
                ops.push(Op::Wait(r.range(0, 800) as u32));
            }
            ops.extend(some_end(r));
            ops.push(Op::Wait(*pick(r, &[0u32, 0, 10, 500, 3000])));
        }
        ops.push(Op::Sync(1));
        scn.actors.push(ops);
    }
    // every slot has to come back: wait out keep-alives and bounds, then fill up
    let mut ops = vec![Op::Sync(1), Op::Wait(6000 + 6000 + 7000 + scn.knobs.jitter_us / 100)];
    for k in 0..max {
        let mut c = conn(&format!("fill{k}"));
        c.clean = true;
        c.ka = 3;
        ops.push(Op::Connect(c));
    }
    for k in 0..r.range(1, 2) {
        let mut c = conn(&format!("over{k}"));
        c.clean = r.chance(0.5);
        ops.push(Op::Connect(c));
    }
    if r.chance(0.5) {
        // a takeover at the limit is allowed
        let mut c = conn("fill0");
        c.clean = r.chance(0.5);
        c.ka = 3;
        ops.push(Op::Connect(c));
    }
    ops.push(Op::Wait(1500));
    scn.actors.push(ops);
    scn.settle = 7000;
    scn
}

pub fn keepalive(r: &mut Rng) -> BScn {
    let mut scn = BScn { knobs: knobs(r), ..Default::default() };
    scn.knobs.jitter_us = scn.knobs.jitter_us.min(20_000);
    scn.cfg.def_ka = *pick(r, &[0u16, 1, 2, 5]);
    scn.cfg.max_ka = *pick(r, &[5u16, 8, 12]);
    if r.chance(0.05) {
        // a day, for example
        scn.cfg.ka_extra = *pick(r, &[65_535 - scn.cfg.max_ka as u32, 65_536 - scn.cfg.max_ka as u32, 65_536, 86_400, 1 << 20]);
    }
    scn.cfg.channel = 256;
    let mut a = auditor();
    a.push(Op::Sync(0));
    scn.actors.push(a);
    for k in 0..r.range(1, 4) {
        let mut ops = vec![Op::Sync(0)];
        let rounds = r.range(1, 2);
        for j in 0..rounds {
            let mut c = conn(&format!("k{k}"));
            c.ka = *pick(r, &[0u16, 1, 2, 3, 5, 9, 100]);
            c.ping = *pick(r, &[0u32, 40, 95, 95, 95, 125, 140]);
            c.exp = Some(60);
            c.clean = j == 0;
            if r.chance(0.5) {
                c.will = Some(WillSpec { topic: s("w/k"), ..Default::default() });
            }
            let ping = c.ping;
            if r.chance(0.08) {
                ops.push(Op::Open { win: 0 });
                ops.push(Op::Wait(60_000));
                break;
            }
            ops.push(Op::Connect(c));
            if r.chance(0.6) {
                ops.push(Op::Sub(vec![(s("chat/#"), *pick(r, &[0u8, 1]))]));
            }
            if r.chance(0.3) {
                ops.push(Op::AckMode(Ack::None));
            }
            ops.push(Op::Wait(r.range(500, 6000) as u32));
            match r.below(6) {
                0 => ops.push(Op::PingStop),
                1 => ops.push(Op::HalfOpen),
                2 if ping == 0 => ops.push(Op::Partial { pk: 0, keep: r.range(1, 200) as usize }),
                3 => ops.push(Op::Wait(15_000)),
                _ => {}
            }
            if j + 1 < rounds {
                ops.push(Op::Wait(*pick(r, &[500u32, 3000, 9000])));
                if r.chance(0.5) {
                    ops.extend(hard_end(r));
                }
            } else {
                ops.push(Op::Wait(22_000));
            }
        }
        scn.actors.push(ops);
    }
    // traffic towards them all the time
    let mut ops = vec![Op::Sync(0)];
    let mut c = conn("p");
    c.clean = true;
    c.ka = 8;
    ops.push(Op::Connect(c));
    ops.push(pubt("chat/1", *pick(r, &[0u8, 1]), 60, 10, *pick(r, &[150u32, 400, 700])));
    ops.push(Op::Await(8000));
    scn.actors.push(ops);
    scn.settle = 9000 + 3 * scn.cfg.max_ka as u32 * 500;
    scn
}

pub fn slow(r: &mut Rng) -> BScn {
    let mut scn = BScn { knobs: knobs(r), ..Default::default() };
    scn.cfg.channel = *pick(r, &[1, 2, 5, 10, 40]);
    scn.cfg.max_ka = *pick(r, &[8u16, 20]);
    let ch = scn.cfg.channel as u64;
    let mut a = auditor();
    // the witness must not be slow itself: it only watches wills
    a[1] = Op::Sub(vec![(s("w/#"), 1)]);
    a.push(Op::Sync(0));
    scn.actors.push(a);
    let win = *pick(r, &[64usize, 256, 1024]);
    let size = *pick(r, &[0u32, 100, 600]);
    // the slow one
    let mut c = conn("slow");
    c.exp = Some(100);
    c.ka = *pick(r, &[3u16, 8, 20]);
    c.win = win;
    c.ack = pick(r, &[Ack::None, Ack::All, Ack::First(1)]).clone();
    if r.chance(0.6) {
        c.will = Some(WillSpec { topic: s("w/slow"), ..Default::default() });
    }
    let c0 = c.clone();
    let mut ops = vec![Op::Sync(0), Op::Connect(c), Op::Sub(vec![(s("f/#"), *pick(r, &[0u8, 1, 1]))]), Op::Await(8000)];
    let kind = r.below(4);
    if kind != 3 {
        ops.push(Op::ReadStop);
    }
    ops.push(Op::Sync(1));
    match kind {
        0 => ops.push(Op::Sync(2)),
        1 => {
            // only behind for a while
            ops.push(Op::Wait(r.range(10, 1500) as u32));
            ops.push(Op::ReadResume);
            ops.push(Op::Sync(2));
        }
        2 => {
            ops.push(Op::Sync(2));
            ops.push(Op::Wait(r.range(100, 5000) as u32));
            ops.push(Op::ReadResume);
        }
        _ => {
            ops.push(Op::HalfOpen);
            ops.push(Op::Sync(2));
        }
    }
    ops.push(Op::Wait(r.range(100, 6500) as u32));
    if r.chance(0.6) {
        let mut c2 = c0.clone();
        c2.win = 0;
        c2.ack = Ack::All;
        ops.push(Op::Connect(c2));
        ops.push(Op::Wait(6500));
        ops.push(Op::Ping);
        ops.push(Op::Await(8000));
    }
    scn.actors.push(ops);
    // publisher: less or much more than fits
    let lone = r.chance(0.2);
    let total = if r.chance(0.35) { r.range(1, ch) } else { ch + 3 + 3 * win as u64 / (size as u64 + 20) + r.range(1, 30) };
    let mut ops = vec![Op::Sync(0)];
    let mut c = conn("p");
    c.clean = true;
    c.ka = 10;
    ops.push(Op::Connect(c));
    ops.push(Op::Sync(1));
    if lone {
        // one at a time, so long apart that everybody knows whether the slow one is still connected
        for _ in 0..r.range(2, ch.min(5) + 4) {
            ops.push(pubt("f/1", 1, 1, *pick(r, &[100u32, 600, 3000]), 0));
            ops.push(Op::Ping);
            ops.push(Op::Await(8000));
            ops.push(Op::Wait(11_000 + 8 * (scn.knobs.jitter_us + scn.knobs.latency_us) / 1000));
        }
    } else {
        ops.push(pubt("f/1", *pick(r, &[0u8, 1, 1]), total as u32, size, *pick(r, &[0u32, 0, 10, 60])));
    }
    ops.push(Op::Ping);
    ops.push(Op::Await(20_000));
    ops.push(Op::Sync(2));
    ops.push(Op::Wait(500));
    ops.push(Op::Ping);
    ops.push(Op::Await(8000));
    scn.actors.push(ops);
    // bystanders
    for k in 0..r.range(1, 2) {
        let mut ops = vec![Op::Sync(0)];
        let mut c = conn(&format!("by{k}"));
        c.clean = true;
        c.ka = 6;
        ops.push(Op::Connect(c.clone()));
        ops.push(Op::Sub(vec![(s("g/#"), 1)]));
        ops.push(Op::Await(8000));
        ops.push(Op::Sync(1));
        for _ in 0..r.range(2, 5) {
            ops.push(Op::Wait(r.range(5, 600) as u32));
            ops.push(pubt("g/1", 1, 1, 0, 0));
            ops.push(Op::Await(8000));
            if r.chance(0.3) {
                ops.push(Op::Close);
                ops.push(Op::Connect(c.clone()));
                ops.push(Op::Sub(vec![(s("g/#"), 1)]));
                ops.push(Op::Await(8000));
            }
        }
        ops.push(Op::Sync(2));
        ops.push(Op::Ping);
        ops.push(Op::Await(8000));
        scn.actors.push(ops);
    }
    scn.settle = 8000 + scn.cfg.max_ka as u32 * 1500;
    scn
}

/// bytes that are not a valid packet stream
pub fn garbage_bytes(r: &mut Rng) -> Vec<u8> {
    let valid = |r: &mut Rng| -> Vec<u8> {
        let p = match r.below(9) {
            0 => Pk::Publish(PublishP { qos: 1, topic: s("g/x"), pid: Some(7), payload: vec![1; 20], props: vec![(0x26, PV::Pair(s("k"), s("v")))], ..Default::default() }),
            1 => Pk::Subscribe { pid: 3, filters: vec![(s("q/+"), 1)], props: vec![(0x0b, PV::Var(9))] },
            2 => Pk::Connect(ConnectP {
                cid: s("garb"),
                clean: true,
                ka: 5,
                props: vec![(0x11, PV::U32(10)), (0x21, PV::U16(10))],
                will: Some(WillP { topic: s("w/g"), payload: vec![1, 2, 3], qos: 1, ..Default::default() }),
                user: Some(s("u")),
                pass: Some(vec![1, 2]),
            }),
            3 => Pk::PubAck { pid: 9, reason: 0x10, props: vec![(0x1f, PV::Str(s("why")))] },
            4 => Pk::Unsub { pid: 4, filters: vec![s("q/+")], props: vec![] },
            5 => Pk::Disconnect { reason: 0x80, props: vec![(0x1f, PV::Str(s("why")))] },
            6 => Pk::ConnAck { sp: false, reason: 0, props: vec![(0x12, PV::Str(s("id")))] },
            7 => Pk::Auth { reason: 0x18, props: vec![] },
            _ => Pk::PubRel { pid: 5, reason: 0, props: vec![] },
        };
        mq::encode(&p)
    };
    match r.below(10) {
        8 => {
            // a remaining length of five bytes; a valid packet with flags it must not have
            let mut b = if r.chance(0.4) { vec![0xc0, 0] } else { valid(r) };
            if r.chance(0.6) {
                let n = b[1];
                b.splice(1..2, [n | 0x80, 0x80, 0x80, 0x80, *pick(r, &[0u8, 0, 1])]);
            } else {
                b[0] ^= *pick(r, &[1u8, 2, 4, 8, 15]);
            }
            b
        }
        0 => (0..r.range(1, 40)).map(|_| r.below(256) as u8).collect(),
        1 => {
            // a valid packet with a few bytes changed
            let mut b = valid(r);
            for _ in 0..r.range(1, 3) {
                let i = r.below(b.len() as u64) as usize;
                b[i] = r.below(256) as u8;
            }
            b
        }
        2 => {
            // a valid packet whose body is cut but whose length says so
            let b = valid(r);
            let body = &b[2..];
            let k = r.below(body.len() as u64 + 1) as usize;
            let mut o = vec![b[0], k as u8];
            o.extend_from_slice(&body[..k]);
            o
        }
        3 => {
            // type and flags at random, short body
            let k = r.below(12);
            let mut o = vec![r.below(256) as u8, k as u8];
            o.extend((0..k).map(|_| r.below(256) as u8));
            o
        }
        4 => vec![*pick(r, &[0x30u8, 0x10, 0x82, 0xc0, 0x00]), 0xff, 0xff, 0xff, *pick(r, &[0xffu8, 0x7f])],
        5 => {
            // lengths inside the body that point past the end
            let mut b = valid(r);
            if b.len() > 4 {
                let i = r.range(2, 3.min(b.len() as u64 - 1)) as usize;
                b[i] = *pick(r, &[0xffu8, 0x7f, 0x80]);
            }
            b
        }
        6 => {
            let mut b = vec![];
            for _ in 0..r.range(1, 3) {
                b.extend(valid(r));
            }
            let k = r.range(1, b.len() as u64) as usize;
            b.truncate(k);
            b
        }
        _ => {
            // an empty or tiny body for every type
            let t = r.below(16) as u8;
            let fl = *pick(r, &[0u8, 2, 6, 15]);
            let k = r.below(4);
            let mut o = vec![t << 4 | fl, k as u8];
            o.extend((0..k).map(|_| *pick(r, &[0u8, 0, 1, 4, 255])));
            o
        }
    }
}

pub fn garbage(r: &mut Rng) -> BScn {
    let mut scn = BScn { knobs: knobs(r), ..Default::default() };
    scn.cfg.channel = 128;
    if r.chance(0.2) {
        scn.cfg.max_active = Some(20);
    }
    let mut a = auditor();
    a.push(Op::Sync(0));
    scn.actors.push(a);
    // the others
    for k in 0..r.range(1, 2) {
        let mut ops = vec![Op::Sync(0)];
        let mut c = conn(&format!("good{k}"));
        c.clean = true;
        c.ka = 4;
        ops.push(Op::Connect(c));
        ops.push(Op::Sub(vec![(s("g/#"), 1)]));
        ops.push(Op::Await(8000));
        for _ in 0..r.range(2, 6) {
            ops.push(pubt("g/1", 1, 1, 10, 0));
            ops.push(Op::Wait(r.range(5, 500) as u32));
        }
        ops.push(Op::Await(8000));
        ops.push(Op::Sync(1));
        ops.push(pubt("g/2", 1, 1, 10, 0));
        ops.push(Op::Ping);
        ops.push(Op::Await(8000));
        scn.actors.push(ops);
    }
    for k in 0..r.range(1, 3) {
        let mut ops = vec![Op::Sync(0)];
        for j in 0..r.range(1, 3) {
            if r.chance(0.4) {
                ops.push(Op::Open { win: 0 });
            } else {
                let mut c = conn(&format!("bad{k}{j}"));
                c.ka = 2;
                c.ping = if r.chance(0.5) { 60 } else { 0 };
                c.exp = *pick(r, &[None, Some(60u32)]);
                c.will = Some(WillSpec { topic: s("w/bad"), qos: 1, ..Default::default() });
                ops.push(Op::Connect(c));
                if r.chance(0.5) {
                    ops.push(Op::Sub(vec![(s("g/#"), 1)]));
                }
            }
            ops.push(Op::Wait(r.below(300) as u32));
            for _ in 0..r.range(1, 3) {
                ops.push(Op::Raw(hex(&garbage_bytes(r))));
                ops.push(Op::Wait(*pick(r, &[0u32, 1, 50])));
            }
            if r.chance(0.4) {
                ops.push(Op::Ping);
                ops.push(publ(r, 2));
            }
            match r.below(4) {
                0 => ops.push(Op::Close),
                1 => ops.push(Op::Rst),
                2 => ops.push(Op::Shut),
                _ => ops.push(Op::Wait(r.range(10, 4000) as u32)),
            }
        }
        ops.push(Op::Sync(1));
        scn.actors.push(ops);
    }
    scn.settle = 52_000;
    scn
}

pub fn accept(r: &mut Rng) -> BScn {
    let mut scn = BScn { knobs: knobs(r), ..Default::default() };
    scn.cfg.channel = 64;
    for k in 0..r.range(1, 3) {
        let mut ops = vec![];
        for j in 0..r.range(1, 6) {
            match r.below(9) {
                8 => ops.push(Op::AcceptFail { code: *pick(r, &[libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM]), ms: *pick(r, &[5u32, 50, 300, 1500]) }),
                0 | 1 => ops.push(Op::AcceptErr(*pick(r, &[libc::ECONNABORTED, libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::EINTR, libc::EPERM, libc::ENOMEM]))),
                2 => {
                    ops.push(Op::Open { win: 0 });
                    ops.push(Op::Rst);
                }
                3 => ops.push(Op::Open { win: 0 }),
                4 => {
                    let mut c = conn(&format!("n{k}{j}"));
                    c.nowait = true;
                    ops.push(Op::Connect(c));
                    ops.push(Op::Wait(r.below(3) as u32));
                    ops.push(Op::Rst);
                }
                5 => {
                    ops.push(Op::Open { win: 1 });
                    ops.push(Op::ReadStop);
                    ops.push(Op::ConnectPk(conn(&format!("m{k}{j}"))));
                }
                6 => {
                    let mut c = conn(&format!("o{k}{j}"));
                    c.clean = true;
                    c.ka = 3;
                    ops.push(Op::Connect(c));
                    ops.push(publ(r, 3));
                }
                _ => ops.push(Op::Wait(r.below(200) as u32)),
            }
        }
        ops.push(Op::Sync(1));
        scn.actors.push(ops);
    }
    let mut ops = vec![Op::Sync(1)];
    for k in 0..2 {
        let mut c = conn(&format!("fresh{k}"));
        c.clean = true;
        c.ka = 3;
        ops.push(Op::Connect(c));
        ops.push(Op::Sub(vec![(s("h/#"), 1)]));
        ops.push(pubt("h/1", 1, 1, 10, 0));
        ops.push(Op::Await(8000));
        ops.push(Op::Wait(200));
    }
    scn.actors.push(ops);
    scn.settle = 7000;
    scn
}

pub fn proto(r: &mut Rng) -> BScn {
    let mut scn = BScn { knobs: knobs(r), ..Default::default() };
    scn.cfg.channel = 128;
    let mut a = auditor();
    a.push(Op::Sync(0));
    scn.actors.push(a);
    for k in 0..r.range(1, 3) {
        let mut ops = vec![Op::Sync(0)];
        for j in 0..r.range(1, 3) {
            let cid = format!("q{k}{j}");
            let mut c = conn(&cid);
            c.ka = 3;
            c.exp = *pick(r, &[None, Some(60u32)]);
            c.will = if r.chance(0.6) { Some(WillSpec { topic: s("w/q"), qos: 1, ..Default::default() }) } else { None };
            let other = |r: &mut Rng| match r.below(6) {
                0 => Op::Sub(vec![(s("a/#"), 1)]),
                1 => pubt("a/b", *pick(r, &[0u8, 1]), 1, 0, 0),
                2 => Op::Ping,
                3 => Op::Unsub(vec![s("a/#")]),
                4 => Op::BogusAck(3),
                _ => pubt("a/c", 1, 2, 0, 0),
            };
            match r.below(5) {
                0 => {
                    // something else first, in one write or several
                    ops.push(Op::Open { win: 0 });
                    let o = other(r);
                    if r.chance(0.5) {
                        ops.push(Op::Batch(vec![o, Op::ConnectPk(c.clone()), Op::Sub(vec![(s("#"), 1)]), pubt("a/b", 1, 1, 0, 0)]));
                    } else {
                        ops.push(o);
                        ops.push(Op::Wait(*pick(r, &[0u32, 1, 500])));
                        ops.push(Op::ConnectPk(c.clone()));
                        ops.push(Op::Sub(vec![(s("#"), 1)]));
                    }
                    ops.push(Op::AwaitClosed(7000));
                }
                1 => {
                    ops.push(Op::Open { win: 0 });
                    ops.push(Op::Disconnect(0));
                    ops.push(Op::AwaitClosed(7000));
                }
                2 => {
                    ops.push(Op::Connect(c.clone()));
                    ops.push(other(r));
                    let mut d = c.clone();
                    if r.chance(0.3) {
                        d.cid = format!("r{k}{j}");
                    }
                    d.clean = r.chance(0.5);
                    if r.chance(0.5) {
                        ops.push(Op::ConnectPk(d));
                    } else {
                        ops.push(Op::Batch(vec![other(r), Op::ConnectPk(d), pubt("a/b", 1, 1, 0, 0)]));
                    }
                    ops.push(Op::AwaitClosed(7000));
                }
                3 => {
                    ops.push(Op::Connect(c.clone()));
                    ops.push(Op::Sub(vec![(s("a/+"), 1)]));
                    let o = other(r);
                    if r.chance(0.6) {
                        ops.push(Op::Batch(vec![Op::Disconnect(*pick(r, &[0u8, 0, 4])), o, pubt("a/b", *pick(r, &[0u8, 1]), 1, 0, 0)]));
                    } else {
                        ops.push(Op::Disconnect(*pick(r, &[0u8, 0, 4])));
                        ops.push(Op::Wait(*pick(r, &[0u32, 1, 300])));
                        ops.push(o);
                    }
                    ops.push(Op::AwaitClosed(7000));
                }
                _ => {
                    ops.push(Op::Connect(c.clone()));
                    ops.push(other(r));
                    ops.push(Op::Await(7000));
                }
            }
            if r.chance(0.5) {
                ops.push(Op::Close);
            }
        }
        scn.actors.push(ops);
    }
    let mut ops = vec![Op::Sync(0)];
    let mut c = conn("p");
    c.clean = true;
    c.ka = 8;
    ops.push(Op::Connect(c));
    ops.push(pubt("a/b", 1, 20, 0, 300));
    ops.push(Op::Await(8000));
    scn.actors.push(ops);
    scn.settle = 12_000;
    scn
}

pub fn idle(r: &mut Rng) -> BScn {
    let mut scn = BScn { knobs: knobs(r), ..Default::default() };
    scn.cfg.def_ka = 100;
    scn.cfg.max_ka = 200;
    scn.tag = s("idle");
    for k in 0..r.range(1, 4) {
        let mut ops = vec![];
        for j in 0..r.range(1, 3) {
            match r.below(6) {
                0 => ops.push(Op::Open { win: 0 }),
                1 => {
                    ops.push(Op::Open { win: 0 });
                    ops.push(Op::Partial { pk: r.below(4) as u8, keep: r.range(1, 60) as usize });
                    if r.chance(0.6) {
                        ops.push(pick(r, &[Op::Close, Op::Shut, Op::HalfOpen]).clone());
                    }
                }
                2 => {
                    let mut c = conn(&format!("z{k}{j}"));
                    c.ping = 0;
                    ops.push(Op::Connect(c));
                    ops.push(Op::Partial { pk: r.below(4) as u8, keep: r.range(1, 250) as usize });
                    if r.chance(0.7) {
                        ops.push(pick(r, &[Op::Close, Op::Shut, Op::HalfOpen, Op::Rst]).clone());
                    }
                }
                3 => {
                    let mut c = conn(&format!("z{k}{j}"));
                    c.ping = 0;
                    c.exp = Some(50);
                    ops.push(Op::Connect(c.clone()));
                    ops.push(Op::Sub(filters(r, 2)));
                    ops.push(publ(r, 3));
                    ops.push(Op::Await(5000));
                    if r.chance(0.4) {
                        ops.push(Op::Connect(c));
                    }
                }
                4 => {
                    let mut c = conn(&format!("z{k}{j}"));
                    c.ping = 0;
                    ops.push(Op::Connect(c));
                    ops.extend(some_end(r));
                }
                _ => {
                    let mut c = conn(&format!("z{k}{j}"));
                    c.ping = 0;
                    c.win = 100;
                    ops.push(Op::Connect(c));
                    ops.push(Op::Sub(vec![(s("a/#"), 1)]));
                    ops.push(Op::Await(5000));
                    ops.push(Op::ReadStop);
                    ops.push(pubt("a/b", 1, 6, 100, 0));
                }
            }
        }
        scn.actors.push(ops);
    }
    scn.settle = 7000 + scn.knobs.jitter_us / 100;
    scn
}

/// more deliveries to one session than there are packet identifiers
pub fn long(r: &mut Rng, total: u32) -> BScn {
    let mut scn = BScn { knobs: Knobs { latency_us: 50, select_random: true, sched: 1, reorder: 0.3, max_steps: 20_000_000, ..Default::default() }, ..Default::default() };
    scn.tag = s("long");
    scn.cfg.channel = 4096;
    scn.cfg.max_ka = 60;
    let mut c = conn("sub");
    c.ka = 40;
    c.exp = Some(500);
    c.ack = Ack::First(r.range(1, 50) as u32);
    let hold = r.range(1, 40) as u32;
    let mut ops = vec![Op::Connect(c.clone()), Op::Sub(vec![(s("l/#"), 1)]), Op::Await(5000), Op::Sync(1), Op::Sync(2), Op::AckMode(Ack::All), Op::Sync(3)];
    if r.chance(0.7) {
        // the held ones are redelivered and held again, everything after is acknowledged
        let mut c2 = c.clone();
        ops.push(Op::Wait(r.range(0, 300) as u32));
        ops.extend(hard_end(r));
        c2.ack = Ack::None;
        ops.push(Op::Connect(c2));
        ops.push(Op::Wait(1000));
        ops.push(Op::AckMode(Ack::All));
    }
    ops.push(Op::Sync(4));
    ops.push(Op::Sync(5));
    ops.push(Op::Ping);
    ops.push(Op::Await(8000));
    scn.actors.push(ops);
    let mut c = conn("p");
    c.clean = true;
    c.ka = 60;
    let mut ops = vec![Op::Connect(c), Op::Sync(1), pubt("l/1", 1, 50 + hold, 0, 0), Op::Ping, Op::Await(8000), Op::Wait(2000), Op::Sync(2), Op::Sync(3), Op::Wait(3000), Op::Sync(4)];
    let mut left = total;
    while left > 0 {
        let n = left.min(1000);
        left -= n;
        ops.push(pubt("l/2", 1, n, 0, 0));
        ops.push(Op::Await(20_000));
        ops.push(Op::Wait(20));
    }
    ops.push(Op::Sync(5));
    scn.actors.push(ops);
    scn.settle = 2000;
    scn
}

/// what is unacknowledged when the connection ends has identifiers from both sides of the wrap
pub fn wraps(r: &mut Rng) -> BScn {
    let mut scn = BScn { knobs: Knobs { latency_us: 50, select_random: true, sched: 1, reorder: 0.3, max_steps: 20_000_000, ..Default::default() }, ..Default::default() };
    scn.tag = s("wrap");
    scn.cfg.channel = 4096;
    scn.cfg.max_ka = 60;
    let mut c = conn("sub");
    c.ka = 40;
    c.exp = Some(500);
    let mut ops = vec![Op::Connect(c.clone()), Op::Sub(vec![(s("l/#"), 1)]), Op::Await(5000), Op::Sync(1), Op::Sync(2)];
    ops.push(Op::AckMode(if r.chance(0.5) { Ack::None } else { Ack::Skip(r.range(2, 4) as u32) }));
    ops.push(Op::Sync(3));
    ops.push(Op::Sync(4));
    ops.push(Op::Wait(r.range(0, 300) as u32));
    for k in 0..r.range(1, 3) {
        ops.extend(hard_end(r));
        let mut c = c.clone();
        c.ack = if k == 0 { pick(r, &[Ack::All, Ack::None, Ack::Skip(2), Ack::First(3)]).clone() } else { Ack::All };
        ops.push(Op::Connect(c));
        ops.push(Op::Wait(1000));
    }
    ops.push(Op::Ping);
    ops.push(Op::Await(8000));
    scn.actors.push(ops);
    let mut c = conn("p");
    c.clean = true;
    c.ka = 60;
    let mut ops = vec![Op::Connect(c), Op::Sync(1)];
    let mut left = 65_535 - r.range(1, 60) as u32;
    while left > 0 {
        let n = left.min(1000);
        left -= n;
        ops.push(pubt("l/2", 1, n, 0, 0));
        ops.push(Op::Await(20_000));
        ops.push(Op::Wait(20));
    }
    ops.extend([Op::Sync(2), Op::Sync(3), pubt("l/1", 1, r.range(20, 100) as u32, 0, 0), Op::Await(8000), Op::Wait(500), Op::Sync(4)]);
    if r.chance(0.5) {
        ops.extend([Op::Wait(r.range(0, 500) as u32), pubt("l/3", 1, 20, 0, 0), Op::Ping, Op::Await(8000)]);
    }
    scn.actors.push(ops);
    scn.settle = 2000;
    scn
}

fn each_op(ops: &mut [Op], f: &mut dyn FnMut(&mut Op)) {
    for o in ops.iter_mut() {
        match o {
            Op::Batch(v) => each_op(v, f),
            Op::On { op, .. } => each_op(std::slice::from_mut(&mut **op), f),
            o => f(o),
        }
    }
}

/// the same story with long identifiers, deep or long topics, big messages, bursts,
/// many filters in a request, many subscribers
pub fn widen(r: &mut Rng, mut scn: BScn) -> BScn {
    if r.chance(0.35) {
        let pre = "i".repeat(*pick(r, &[22usize, 23, 63, 64, 127, 128, 254, 300, 1000]));
        for ops in scn.actors.iter_mut() {
            each_op(ops, &mut |o| {
                if let Op::Connect(c) | Op::ConnectPk(c) = o {
                    if !c.cid.is_empty() {
                        c.cid = format!("{pre}{}", c.cid);
                    }
                }
            });
        }
    }
    if r.chance(0.35) {
        let pre = match r.below(6) {
            0 => "t".repeat(*pick(r, &[250usize, 256, 1000, 5000])),
            1 => "/".repeat(r.range(8, 40) as usize),
            _ => vec!["d"; r.range(8, 40) as usize].join("/"),
        };
        let top = |t: &mut String| {
            if t != "#" && !t.starts_with('$') && !t.is_empty() {
                *t = format!("{pre}/{t}");
            }
        };
        for ops in scn.actors.iter_mut() {
            each_op(ops, &mut |o| match o {
                Op::Connect(c) | Op::ConnectPk(c) => {
                    if let Some(w) = &mut c.will {
                        top(&mut w.topic);
                    }
                }
                Op::Sub(f) => f.iter_mut().for_each(|x| top(&mut x.0)),
                Op::Unsub(f) => f.iter_mut().for_each(top),
                Op::Pub { topic, .. } => top(topic),
                _ => {}
            });
        }
    }
    if r.chance(0.3) {
        scn.knobs.window = 65536;
        scn.knobs.split_p = 0.0;
        scn.knobs.jitter_us = scn.knobs.jitter_us.min(500);
        let z = *pick(r, &[5000u32, 16_300, 16_400, 33_000, 70_000]);
        for ops in scn.actors.iter_mut() {
            each_op(ops, &mut |o| match o {
                Op::Connect(c) | Op::ConnectPk(c) => {
                    c.win = 0;
                    if let Some(w) = &mut c.will {
                        w.size = z.min(60_000);
                    }
                }
                Op::Pub { n, size, .. } if *n <= 4 => *size = z,
                _ => {}
            });
        }
    } else if r.chance(0.4) {
        scn.cfg.channel = 4096;
        scn.knobs.window = 65536;
        scn.knobs.jitter_us = scn.knobs.jitter_us.min(500);
        let k = *pick(r, &[30u32, 70, 130, 260]);
        let mut left = 3;
        for ops in scn.actors.iter_mut() {
            each_op(ops, &mut |o| match o {
                Op::Connect(c) | Op::ConnectPk(c) => c.win = 0,
                Op::Pub { n, size, gap, .. } if left > 0 => {
                    left -= 1;
                    *n = k;
                    *size = 0;
                    *gap = 0;
                }
                _ => {}
            });
        }
    }
    if r.chance(0.3) {
        let k = *pick(r, &[20usize, 33, 65, 130, 300]);
        let front = r.chance(0.7);
        let kind = r.below(3);
        for ops in scn.actors.iter_mut() {
            each_op(ops, &mut |o| match o {
                Op::Sub(f) if kind != 1 => {
                    let x: Vec<_> = (0..k).map(|i| (format!("zz/{i}"), 1u8)).collect();
                    let at = if front { 0 } else { f.len() };
                    f.splice(at..at, x);
                }
                Op::Unsub(f) if kind != 0 => {
                    let x: Vec<_> = (0..k).map(|i| format!("zz/{i}")).collect();
                    let at = if front { 0 } else { f.len() };
                    f.splice(at..at, x);
                }
                _ => {}
            });
        }
    }
    let syncs: Vec<u32> = scn.actors.iter().flatten().filter_map(|o| if let Op::Sync(k) = o { Some(*k) } else { None }).collect();
    if syncs.contains(&1) && r.chance(0.3) && scn.cfg.max_active.is_none() {
        let last = *syncs.iter().max().unwrap();
        let tail = last != 1;
        let f = s(pick(r, &["#", "#", "a/#", "a/b"]));
        let q = *pick(r, &[0u8, 1]);
        for i in 0..r.range(10, 40) {
            let mut ops = vec![
                Op::Connect(Conn { cid: format!("many{i}"), clean: true, ping: 60, ka: 6, ..Default::default() }),
                Op::Sub(vec![(f.clone(), q)]),
                Op::Await(8000),
                Op::Sync(1),
            ];
            if tail {
                ops.push(Op::Sync(last));
            }
            ops.push(Op::Wait(3000));
            ops.push(Op::Ping);
            ops.push(Op::Await(8000));
            scn.actors.push(ops);
        }
    }
    scn
}

/// numbers well above the usual ones: intervals, counts, windows
pub fn large(r: &mut Rng, kind: &str) -> BScn {
    let mut scn = BScn { knobs: knobs(r), ..Default::default() };
    scn.knobs.jitter_us = scn.knobs.jitter_us.min(500);
    scn.knobs.window = 65536;
    scn.knobs.max_time_s = 1_000_000;
    scn.cfg.channel = 4096;
    scn.cfg.max_ka = 65_535;
    scn.cfg.def_ka = *pick(r, &[60u16, 300]);
    scn.cfg.expiry = *pick(r, &[3600u32, 70_000, 200_000]);
    scn.settle = 9000;
    let big = &[130u32, 300, 1000, 2000, 4000, 33_000, 44_000, 65_536, 65_540, 70_000, 150_000];
    match kind {
        "sessions" => {
            let mut c = conn("s0");
            c.ka = 0;
            c.ping = 0;
            let e = *pick(r, big);
            c.exp = Some(e);
            let e = e.min(scn.cfg.expiry);
            let mut ops = vec![Op::Connect(c.clone()), Op::Sub(filters(r, 3)), Op::Await(8000), Op::Wait(1200)];
            for _ in 0..r.range(1, 3) {
                ops.push(pick(r, &[Op::Close, Op::Rst, Op::Disconnect(0), Op::Shut]).clone());
                let w = match r.below(4) {
                    0 => (e as u64 * 1000 * r.range(1, 99) / 100) as u32,
                    1 => e * 1000 + r.range(1500, 5_000) as u32,
                    _ => e * 1000 - 300 + r.range(0, 1500) as u32,
                };
                ops.push(Op::Wait(w));
                ops.push(Op::Connect(c.clone()));
                ops.push(Op::Await(8000));
                if r.chance(0.5) {
                    ops.push(Op::Sub(filters(r, 2)));
                }
                ops.push(Op::Ping);
                ops.push(Op::Await(8000));
                ops.push(Op::Wait(1200));
            }
            scn.actors.push(ops);
            changed_expiry(r, &mut scn, e as u64 * 3000);
        }
        "wills" => {
            let mut a = auditor();
            if let Op::Connect(c) = &mut a[0] {
                c.ka = 30_000;
            }
            a.push(Op::Sync(0));
            scn.actors.push(a);
            scn.cfg.expiry = 200_000;
            for k in 0..r.range(1, 2) {
                let d = *pick(r, big);
                let mut c = conn(&format!("w{k}"));
                c.ka = *pick(r, &[0u16, 50, 1000]);
                c.ping = 60;
                c.exp = Some(*pick(r, &[200_000u32, 200_000, d, d.saturating_sub(40).max(1), d + 100]));
                c.will = Some(WillSpec { topic: format!("w/{k}"), qos: r.below(2) as u8, delay: d, retain: false, pm: wpm(r), size: *pick(r, &[0u32, 0, 5000, 60_000]) });
                let e = c.exp.unwrap();
                let due = d.min(e);
                let mut ops = vec![Op::Sync(0), Op::Connect(c.clone()), Op::Await(8000), Op::Wait(300)];
                ops.push(pick(r, &[Op::Close, Op::Rst, Op::Disconnect(4), Op::Shut]).clone());
                if r.chance(0.5) {
                    ops.push(Op::Wait(due * 1000 + 20_000));
                } else {
                    // back while it is pending
                    ops.push(Op::Wait((due as u64 * 1000 * r.range(1, 95) / 100) as u32));
                    let mut c2 = c.clone();
                    c2.will = None;
                    c2.clean = r.chance(0.3);
                    ops.push(Op::Connect(c2));
                    ops.push(Op::Await(8000));
                    ops.push(Op::Wait(due * 1000));
                }
                scn.actors.push(ops);
            }
            scn.settle = 30_000;
        }
        "keepalive" => {
            let mut a = auditor();
            if let Op::Connect(c) = &mut a[0] {
                c.ka = 30_000;
            }
            a.push(Op::Sync(0));
            scn.actors.push(a);
            scn.cfg.max_ka = *pick(r, &[600u16, 2400, 50_000, 65_535]);
            for k in 0..r.range(1, 2) {
                let mut c = conn(&format!("k{k}"));
                c.ka = *pick(r, &[100u16, 255, 256, 1000, 1201, 2000, 20_000, 33_000, 43_700, 65_535]);
                c.ping = *pick(r, &[0u32, 0, 60, 95, 125]);
                c.will = Some(WillSpec { topic: s("w/k"), ..Default::default() });
                let ka = c.ka.min(scn.cfg.max_ka) as u32;
                let silent = c.ping == 0;
                let mut ops = vec![Op::Sync(0), Op::Connect(c), Op::Await(8000), Op::Wait(r.range(0, 2000) as u32)];
                if !silent {
                    ops.push(Op::Wait(ka * 5200));
                    ops.push(pick(r, &[Op::PingStop, Op::HalfOpen, Op::Close]).clone());
                }
                ops.push(Op::Wait(ka * 1500 + 9000));
                scn.actors.push(ops);
            }
        }
        "limit" => {
            let max = *pick(r, &[7u32, 8, 9, 16, 17, 32, 64, 65, 128, 255, 256, 257, 300]);
            scn.cfg.max_active = Some(max);
            scn.cfg.channel = 32;
            scn.knobs.latency_us = 100;
            scn.knobs.split_p = 0.0;
            let mut ops = vec![];
            let lag = max + r.range(1, 4) as u32;
            for k in 0..lag {
                let mut c = conn(&format!("f{k}"));
                c.clean = r.chance(0.7);
                c.ka = 3000;
                ops.push(Op::Connect(c));
            }
            ops.push(Op::Wait(500));
            let gone = r.range(1, 4).min(max as u64) as u32;
            for k in 0..gone {
                ops.push(Op::On { back: lag - 1 - k, op: Box::new(pick(r, &[Op::Close, Op::Rst, Op::Disconnect(0)]).clone()) });
            }
            ops.push(Op::Wait(7000));
            for k in 0..gone + r.below(2) as u32 {
                let mut c = conn(&format!("g{k}"));
                c.clean = true;
                c.ka = 3000;
                ops.push(Op::Connect(c));
            }
            ops.push(Op::Wait(1500));
            scn.actors.push(ops);
        }
        "flow" => {
            let m = *pick(r, &[64u16, 100, 127, 128, 255, 256, 257, 300, 600, 1000, 40_000]);
            let burst = (m as u32 + 70).min(1500);
            let mut c = conn("s0");
            c.ka = 60;
            c.exp = Some(600);
            c.rmax = if r.chance(0.7) { m } else { 0 };
            c.ack = pick(r, &[Ack::None, Ack::None, Ack::First(5), Ack::Delay(20)]).clone();
            let mut ops = vec![Op::Connect(c.clone()), Op::Sub(vec![(s("a/#"), 1)]), Op::Await(8000), Op::Sync(1), Op::Sync(2), Op::Wait(500)];
            if r.chance(0.7) {
                ops.extend(hard_end(r));
                ops.push(Op::Wait(*pick(r, &[0u32, 300, 3000])));
                let mut c2 = c.clone();
                if r.chance(0.3) {
                    c2.rmax = *pick(r, &[0u16, 1, 20, 65_535]);
                }
                ops.push(Op::Connect(c2));
                ops.push(Op::Wait(1000));
            }
            ops.push(Op::AckMode(Ack::All));
            ops.push(Op::AckHeld);
            ops.push(Op::Ping);
            ops.push(Op::Await(8000));
            ops.push(Op::Wait(2000));
            ops.push(Op::Ping);
            ops.push(Op::Await(8000));
            scn.actors.push(ops);
            let mut c = conn("p0");
            c.clean = true;
            c.ka = 60;
            scn.actors.push(vec![Op::Connect(c), Op::Sync(1), pubt("a/b", 1, burst, 0, 0), Op::Ping, Op::Await(20_000), Op::Sync(2), Op::Ping, Op::Await(8000)]);
        }
        "takeover" => {
            let mut ops = vec![];
            scn.cfg.expiry = 600;
            let n = *pick(r, &[5u32, 9, 17, 40, 70, 260]);
            let mut c = conn("t");
            c.exp = Some(600);
            c.ka = 60;
            c.ack = Ack::None;
            let hold = r.chance(0.5);
            let burst = r.chance(0.4);
            for k in 0..n {
                let mut c = c.clone();
                c.nowait = burst && k > 0 && r.chance(0.8);
                let nowait = c.nowait;
                ops.push(Op::Connect(c));
                if nowait {
                    if r.chance(0.2) {
                        ops.push(Op::Wait(*pick(r, &[0u32, 1, 10])));
                    }
                    continue;
                }
                if k == 0 {
                    ops.push(Op::Sub(vec![(s("t/#"), 1)]));
                }
                ops.push(Op::Await(8000));
                if k == 0 && hold {
                    ops.push(pubt("t/1", 1, 3, 0, 0));
                    ops.push(Op::Await(8000));
                    ops.push(Op::Wait(50));
                }
                if k > 0 && r.chance(0.1) {
                    ops.push(Op::On { back: 1, op: Box::new(pick(r, &[Op::Close, Op::Rst, Op::Ping, Op::Unsub(vec![s("t/#")])]).clone()) });
                }
                if r.chance(0.2) {
                    ops.push(pick(r, &[Op::Close, Op::Rst, Op::Disconnect(0)]).clone());
                    ops.push(Op::Wait(*pick(r, &[0u32, 20])));
                }
            }
            if burst {
                ops.push(Op::Wait(8000));
                ops.push(Op::Connect(c.clone()));
                ops.push(Op::Await(8000));
            }
            ops.push(Op::AckMode(Ack::All));
            ops.push(Op::Wait(8000));
            ops.push(Op::AckHeld);
            ops.push(pubt("t/2", 1, 2, 0, 0));
            ops.push(Op::Ping);
            ops.push(Op::Await(8000));
            ops.push(Op::Wait(1000));
            scn.actors.push(ops);
        }
        _ => unreachable!(),
    }
    scn
}

pub fn for_property(p: &str, r: &mut Rng, n: u64) -> BScn {
    // large numbers
    let l: &[&str] = match p {
        "B02" | "B04" | "B12" | "B18" => &["flow"],
        "B05" => &["flow", "takeover"],
        "B06" => &["takeover"],
        "B07" => &["wills", "wills", "keepalive"],
        "B08" => &["sessions", "takeover"],
        "B09" => &["sessions"],
        "B10" => &["limit"],
        "B11" => &["keepalive"],
        _ => &[],
    };
    if !l.is_empty() && r.chance(0.012) {
        let kind = *pick(r, l);
        return large(r, kind);
    }
    let mut scn = for_property_(p, r, n);
    if n % 8000 != 11 && (r.chance(if p == "B06" { 0.1 } else { 0.03 }) || std::env::var("VSIM_TLS").is_ok()) {
        // what talks to a connection without TLS would not be understood
        let plain = scn.actors.iter().any(|a| {
            a.iter().any(|o| matches!(o, Op::Open { .. })) && a.iter().any(|o| matches!(o, Op::ConnectPk(_) | Op::Raw(_) | Op::Partial { .. } | Op::Batch(_) | Op::Pub { .. } | Op::Sub(_)))
        });
        scn.cfg.tls = !plain;
    }
    if matches!(p, "B01" | "B02" | "B03" | "B04" | "B05" | "B06" | "B07" | "B08" | "B09" | "B10" | "B18") && n % 8000 != 11 && r.chance(0.05) {
        return widen(r, scn);
    }
    scn
}

fn for_property_(p: &str, r: &mut Rng, n: u64) -> BScn {
    // mostly the property's own kind, now and then another one
    let other = r.chance(0.12);
    let kind = if other { *pick(r, &["B01", "B04", "B06", "B07", "B08", "B10", "B11", "B12", "B13", "B15", "B18"]) } else { p };
    if p == "B05" && n % 8000 == 11 {
        return long(r, 66_500);
    }
    if matches!(p, "B02" | "B04") && n % 8000 == 11 {
        return wraps(r);
    }
    match kind {
        "B01" => {
            let churn = r.chance(0.5);
            pubsub(r, churn)
        }
        "B02" => {
            if r.chance(0.5) {
                resume(r)
            } else {
                let churn = r.chance(0.5);
                pubsub(r, churn)
            }
        }
        "B03" => {
            let churn = r.chance(0.3);
            pubsub(r, churn)
        }
        "B04" => resume(r),
        "B05" => {
            if r.chance(0.5) {
                resume(r)
            } else {
                pubsub(r, true)
            }
        }
        "B06" => takeover(r),
        "B07" => wills(r),
        "B08" => sessions(r, false),
        "B09" => sessions(r, true),
        "B10" => limit(r),
        "B11" => keepalive(r),
        "B12" => slow(r),
        "B13" => garbage(r),
        "B14" => accept(r),
        "B15" => proto(r),
        "B18" => flow(r),
        "B16" => {
            if r.chance(0.6) {
                idle(r)
            } else if r.chance(0.7) {
                garbage(r)
            } else {
                accept(r)
            }
        }
        _ => pubsub(r, true),
    }
}
