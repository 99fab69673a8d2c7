//! Generators of histories, steered by a profile per property.
use crate::backends::FaultPlan;
use crate::engine::*;
use crate::jobs::*;
use crate::rng::Rng;
use chrono::{Datelike, Timelike};

#[derive(Clone)]
pub struct Prof {
    pub types: Vec<usize>,
    pub max_types: usize,
    pub nslots: u8,
    pub steps: (u64, u64),
    pub clients: u64,
    /// submit, burst, far burst, cancel, update, retry, get, config, plugin
    pub ops: [u32; 9],
    /// now, delay, at, cron
    pub sched: [u32; 4],
    pub p_retry: u32,
    pub p_fail: u32,
    pub p_panic: u32,
    pub p_plugins: u32,
    pub p_cfg_how: u32,
    pub p_just: u32,
    pub maxes: Vec<usize>,
    pub burst: (u64, u64),
    pub scales: Vec<u8>,
    pub hosts: Vec<Host>,
    pub bes: Vec<Be>,
    pub p_default_cfg: u32,
    pub dur: [u32; 4],
    pub settle_ticks: (u64, u64),
    /// one long quiet time before a step
    pub p_long: u32,
}

impl Default for Prof {
    fn default() -> Self {
        Prof {
            types: vec![0, 0, 1, 2, 3],
            max_types: 2,
            nslots: 5,
            steps: (3, 28),
            clients: 2,
            ops: [40, 4, 2, 8, 8, 8, 12, 4, 0],
            sched: [50, 20, 10, 15],
            p_retry: 30,
            p_fail: 35,
            p_panic: 0,
            p_plugins: 0,
            p_cfg_how: 6,
            p_just: 20,
            maxes: vec![1, 1, 2, 3, 5, 20, 40, 1 << 32, usize::MAX],
            burst: (1, 12),
            scales: vec![0, 0, 0, 0, 1, 2, 3, 4],
            hosts: vec![Host::Actix, Host::Actix, Host::Tokio, Host::Plain],
            bes: {
                let mut v = vec![Be::Redis];
                v.extend([Be::Mem, Be::Ref, Be::Ref, Be::Quick].repeat(4));
                v
            },
            p_default_cfg: 35,
            dur: [35, 15, 30, 20],
            settle_ticks: (20, 90),
            p_long: 0,
        }
    }
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub p: &'a Prof,
    pub tick_us: u64,
    pub scale: u8,
    pub epoch_us: i64,
    ops_left_cost: u64,
    auto_pct: u32,
}

const EPOCHS: &[i64] = &[
    1_704_067_199_000_000, // end of 2023
    1_709_164_790_000_000, // 28 Feb 2024
    1_718_000_000_000_000,
    1_735_689_570_000_000, // end of 2024
    1_762_000_000_000_000,
    2_147_483_600_000_000, // 2038
    946_684_700_000_000,   // end of 1999
    86_400_000_000,        // 1970
    4_102_444_700_000_000, // end of 2099
    951_782_300_000_000,   // 28 Feb 2000
];

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, p: &'a Prof, tick_us: u64, scale: u8, epoch_us: i64) -> Self {
        G { r, p, tick_us, scale, epoch_us, ops_left_cost: 8, auto_pct: 0 }
    }
    fn t(&mut self, milli_ticks: u64) -> u64 {
        // up to milli_ticks/1000 ticks, in whole microseconds
        self.r.below((self.tick_us as u128 * milli_ticks as u128 / 1000).max(1) as u64 + 1)
    }
    pub fn gap(&mut self) -> u64 {
        match self.r.weighted(&[25, 30, 30, 15]) {
            0 => self.r.below(3),
            1 => self.t(1000),
            2 => self.t(4000),
            _ => self.t(14000),
        }
    }
    pub fn dur(&mut self) -> u64 {
        match self.r.weighted(&self.p.dur) {
            0 => 0,
            1 => self.r.below(1000),
            2 => self.t(2000),
            _ => self.t(12000),
        }
    }
    pub fn delay(&mut self) -> i64 {
        match self.r.weighted(&[8, 4, 14, 44, 30, 4]) {
            0 => -(self.t(20000) as i64),
            5 => self.far(),
            1 => 0,
            2 => self.r.below(2000) as i64,
            3 => self.t(5000) as i64,
            _ => self.t(40000) as i64,
        }
    }
    /// days to millennia away, around the limits of common time representations
    fn far(&mut self) -> i64 {
        const DAY: i64 = 86_400_000_000;
        let d = match self.r.below(6) {
            0 => 1 + self.r.below(60) as i64 * DAY,
            1 => 1_000 * *self.r.pick(&[i32::MAX as i64, u32::MAX as i64, 1 << 40]) + self.r.below(2_000_000) as i64,
            2 => 1_000_000 * *self.r.pick(&[i32::MAX as i64, u32::MAX as i64]) + self.r.below(2_000_000) as i64,
            3 => self.r.below(40 * 365) as i64 * DAY,
            4 => (250 + self.r.below(100) as i64) * 365 * DAY,
            _ => self.r.below(5000 * 365) as i64 * DAY + self.r.below(1_000_000) as i64,
        };
        if self.r.chance(30) {
            -d
        } else {
            d
        }
    }
    pub fn cron(&mut self) -> String {
        if self.r.chance(20) {
            // finitely many slots, soon after the start of the case
            let at = self.epoch_us / 1_000_000 + 1 + self.t(30_000) as i64 / 1_000_000;
            let t = chrono::DateTime::<chrono::Utc>::from_timestamp(at, 0).unwrap();
            let mut secs = vec![t.second()];
            for _ in 0..self.r.below(4) {
                secs.push(self.r.below(60) as u32);
            }
            secs.sort();
            secs.dedup();
            let secs: Vec<String> = secs.iter().map(|s| s.to_string()).collect();
            let mins = if self.r.chance(50) { t.minute().to_string() } else { "*".into() };
            return format!("{} {} {} {} {} * {}", secs.join(","), mins, t.hour(), t.day(), t.month(), t.year());
        }
        let v: &[&str] = match self.scale {
            0 => &[
                "* * * * * * *",
                "*/2 * * * * *",
                "*/3 * * * * * *",
                "0,7,8,9,31,59 * * * * *",
                "5-9 * * * * *",
                "*/5 * * * * *",
            ],
            1 => &["0 * * * * *", "30 */2 * * * *", "15,45 * * * * * *", "*/20 * * * * *", "0 0-58/2 * * * *"],
            2 => &["0 0 * * * *", "0 15,45 * * * *", "30 */10 * * * *", "0 0 */2 * * *"],
            3 => &["0 30 6 * * *", "0 0 0 * * Mon", "0 0 */8 * * *", "0 0 12 * * Mon-Fri *", "0 0 0 1,15 * *"],
            _ => &["0 0 0 1 * *", "0 0 0 29 2 *", "0 0 12 * * Sun", "0 0 0 1 1,7 *"],
        };
        self.r.pick(v).to_string()
    }
    pub fn sched(&mut self) -> Sched {
        match self.r.weighted(&self.p.sched) {
            0 => Sched::Now,
            1 => Sched::Delay(self.delay()),
            2 => Sched::At(self.delay()),
            _ => {
                let e = self.cron();
                let max = match self.r.weighted(&[40, 50, 10]) {
                    0 => None,
                    1 => Some(self.r.range(1, 4) as i32),
                    _ if self.r.chance(25) => Some(self.r.range(-1, 0) as i32),
                    _ => Some(self.r.range(5, 12) as i32),
                };
                let end = if self.r.chance(35) {
                    let span = [10_000_000u64, 400_000_000, 20_000_000_000, 1_000_000_000_000, 60_000_000_000_000][self.scale as usize % 5];
                    Some(self.r.below(span) as i64)
                } else {
                    None
                };
                Sched::Cron(e, max, end)
            }
        }
    }
    pub fn retry(&mut self) -> Option<RetrySpec> {
        if !self.r.chance(self.p.p_retry) {
            return None;
        }
        let max = match self.r.weighted(&[10, 20, 50, 8, 12]) {
            0 => Some(0),
            1 => Some(1),
            2 => Some(self.r.range(2, 5) as i32),
            3 => Some(-1),
            _ => None,
        };
        let us = match self.r.weighted(&[10, 20, 50, 20, 3]) {
            0 => 0,
            4 => self.far().unsigned_abs() % (100 * 365 * 86_400_000_000),
            1 => self.r.below(2000),
            2 => self.t(3000),
            _ => self.t(9000),
        } as i64;
        Some(match self.r.weighted(&[15, 45, 40]) {
            0 => RetrySpec::Default,
            1 => RetrySpec::Interval(max, us),
            _ => RetrySpec::Exp(max, (us / 4).max(if max.is_none() { self.tick_us as i64 / 8 } else { 0 })),
        })
    }
    pub fn payload(&mut self) -> Payload {
        let n = 1 + self.r.weighted(&[50, 25, 15, 6, 4]);
        let mut runs = vec![];
        for _ in 0..n {
            let panic = if self.r.chance(self.p.p_panic) { 1 + self.r.below(6) as u8 } else { 0 };
            runs.push(RunSpec {
                block: false,
                dur_us: self.dur(),
                yields: if self.r.chance(15) { self.r.below(4) as u8 } else { 0 },
                fail: self.r.chance(self.p.p_fail),
                post_flip: self.r.chance(10),
                panic,
            });
        }
        // make sure endless failing is not the rule
        if self.r.chance(70) {
            runs.push(RunSpec { dur_us: self.dur(), ..Default::default() });
        }
        let mut custom = vec![];
        for _ in 0..self.r.below(4) {
            custom.push(if self.r.chance(70) { Some(self.delay()) } else { None });
        }
        Payload { tag: self.r.next() as u32 % 100_000, text: { let n = if self.r.chance(5) { 400 } else { 12 }; self.r.text(n) }, counter: self.r.below(1000) as u32, runs, custom }
    }
    pub fn how(&mut self) -> How {
        if self.r.chance(self.p.p_cfg_how) {
            How::Cfg(self.r.chance(50), self.r.chance(60))
        } else if self.r.chance(self.p.p_just) {
            How::JustRun
        } else if self.r.chance(15) {
            How::Add
        } else {
            How::Run
        }
    }
    pub fn op(&mut self, ty: usize) -> Op {
        let slot = self.r.below(self.p.nslots as u64) as u8;
        match self.r.weighted(&self.p.ops) {
            0 => Op::Submit {
                ty,
                slot,
                auto: self.r.chance(self.auto_pct),
                how: self.how(),
                sched: self.sched(),
                retry: self.retry(),
                p: self.payload(),
            },
            1 => {
                let n = self.r.urange(self.p.burst.0, self.p.burst.1).min(self.ops_left_cost);
                self.ops_left_cost -= n;
                Op::Burst { ty, n: n as u16, how: if self.r.chance(25) { How::JustRun } else { How::Run }, dur_us: self.dur() }
            }
            2 => {
                let n = self.r.urange(self.p.burst.0, self.p.burst.1).min(self.ops_left_cost);
                self.ops_left_cost -= n;
                Op::FarBurst { ty, n: n as u16, delay_us: self.t(60000) as i64 + if self.r.chance(50) { 1000 * self.tick_us as i64 } else { 0 } }
            }
            3 => Op::Cancel { ty, slot },
            4 => {
                let ctx = if self.r.chance(45) {
                    Some(CtxSpec {
                        sched: self.sched(),
                        retry: self.retry(),
                        id: *self.r.pick(&[CtxId::Same, CtxId::Same, CtxId::Other, CtxId::Empty]),
                        status: if self.r.chance(70) { 0 } else { self.r.below(5) as u8 },
                        run_count: if self.r.chance(80) { 0 } else { self.r.below(9) as u8 },
                    })
                } else {
                    None
                };
                Op::Update { ty, slot, p: self.payload(), ctx }
            }
            5 => Op::Retry { ty, slot },
            6 => Op::Get { ty, slot },
            7 => {
                let tick_ms = if self.r.chance(50) {
                    self.tick_us / 1000
                } else {
                    (self.tick_us / 1000 * *self.r.pick(&[1u64, 2, 3, 5]) / *self.r.pick(&[1u64, 2, 4])).max(1)
                };
                Op::Config { ty, tick_ms, max: if self.r.chance(4) { 0 } else { *self.r.pick(&self.p.maxes) } }
            }
            _ => Op::Plugin { delay_us: 0 },
        }
    }
}

pub fn scale_tick(r: &mut Rng, scale: u8) -> u64 {
    1000 * match scale {
        0 => *r.pick(&[100u64, 100, 50, 20, 200, 37]),
        1 => *r.pick(&[1000u64, 2000, 5000]),
        2 => *r.pick(&[30_000u64, 60_000]),
        3 => *r.pick(&[900_000u64, 3_600_000]),
        _ => *r.pick(&[43_200_000u64, 86_400_000]),
    }
}

pub fn epoch(r: &mut Rng) -> i64 {
    let base = *r.pick(EPOCHS);
    base + r.below(30_000_000) as i64
}

/// The steps that put a type's queue on the tick and limit of the case.
pub fn prelude(r: &mut Rng, p: &Prof, ty: usize, tick_us: u64) -> Vec<Step> {
    if tick_us == 100_000 && r.chance(p.p_default_cfg) {
        return vec![];
    }
    let max = *r.pick(&p.maxes);
    vec![
        Step { gap_us: 0, op: Op::Burst { ty, n: 1, how: How::Run, dur_us: 0 } },
        Step { gap_us: 0, op: Op::Config { ty, tick_ms: tick_us / 1000, max } },
    ]
}

pub fn case(r: &mut Rng, p: &Prof) -> Case {
    let scale = *r.pick(&p.scales);
    let tick_us = scale_tick(r, scale);
    let epoch_us = epoch(r);
    let nt = 1 + r.below(p.max_types as u64) as usize;
    let mut types = vec![];
    for _ in 0..nt {
        let t = *r.pick(&p.types);
        if !types.contains(&t) {
            types.push(t);
        }
    }
    let nclients = 1 + r.below(p.clients);
    let auto_pct = if r.chance(70) { 0 } else { 25 };
    let mut clients = vec![];
    let mut first = vec![];
    for ty in &types {
        first.extend(prelude(r, p, *ty, tick_us));
    }
    let mut cost = 160;
    for c in 0..nclients {
        let n = r.urange(p.steps.0, p.steps.1);
        let mut steps = if c == 0 { std::mem::take(&mut first) } else { vec![] };
        for _ in 0..n {
            let ty = *r.pick(&types);
            let mut g = G { r, p, tick_us, scale, epoch_us, ops_left_cost: cost, auto_pct };
            let gap_us = g.gap();
            let op = g.op(ty);
            cost = g.ops_left_cost;
            steps.push(Step { gap_us, op });
        }
        clients.push(steps);
    }
    if p.p_long > 0 && r.chance(p.p_long) {
        let k = r.below(clients.len() as u64) as usize;
        if !clients[k].is_empty() {
            let i = r.below(clients[k].len() as u64) as usize;
            clients[k][i].gap_us += tick_us * (200 + r.below(1800));
        }
    }
    let host = *r.pick(&p.hosts);
    let mut plugins = vec![];
    let mut host = host;
    if r.chance(p.p_plugins) {
        host = Host::Actix;
        for _ in 0..1 + r.below(3) {
            plugins.push(0);
        }
    }
    if host != Host::Actix {
        // registering plugins needs an actix system in the calling thread (see KNOWN_FINDINGS.md)
        for s in clients.iter_mut().flatten() {
            if let Op::Plugin { .. } = s.op {
                s.op = Op::Nop;
            }
        }
    }
    let settle = r.urange(p.settle_ticks.0, p.settle_ticks.1);
    Case {
        epoch_us,
        sched_seed: r.next(),
        host,
        be: *r.pick(&p.bes),
        ids: r.below(ID_STYLES as u64) as u8,
        names: names(r),
        plugins,
        clients,
        settle_us: settle * tick_us,
        faults: FaultPlan::default(),
        after_crash: vec![],
        down_us: 0,
    }
}

pub fn names(r: &mut Rng) -> u8 {
    if r.chance(50) {
        0
    } else {
        r.below(NAME_STYLES as u64) as u8
    }
}
