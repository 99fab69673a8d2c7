//! Cases (generated histories) and the driver that runs one against the real engine.
use std::collections::HashMap;
use std::str::FromStr;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use aj::job::{CronContext, JobStatus, JobType, Retry};
use aj::queue::WorkQueueConfig;
use aj::backend::types::QueueDirection;
use aj::{Job, JobContext, AJ};
use chrono::{DateTime, Utc};
use serde::{Deserialize, Serialize};

use crate::backends::{FaultPlan, RefBackend, Store, Traced, ARMED, CALL_NO, CALL_OPS, IN_CALL};
use crate::jobs::*;
use crate::{sim, with_ty};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sched {
    Now,
    /// `.delay(us)`
    Delay(i64),
    /// `.schedule_at(now + us)`
    At(i64),
    /// cron expression, max repeat, end (us from now, see `end_us`)
    Cron(String, Option<i32>, Option<i64>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum RetrySpec {
    Default,
    Interval(Option<i32>, i64),
    Exp(Option<i32>, i64),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum How {
    Run,
    JustRun,
    Add,
    /// `AJ::enqueue_job` with EnqueueConfig { re_run, override_data }
    Cfg(bool, bool),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum CtxId {
    Same,
    Other,
    Empty,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CtxSpec {
    pub sched: Sched,
    pub retry: Option<RetrySpec>,
    pub id: CtxId,
    /// status and run count the caller's context happens to carry
    pub status: u8,
    pub run_count: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Submit { ty: usize, slot: u8, auto: bool, how: How, sched: Sched, retry: Option<RetrySpec>, p: Payload },
    /// n plain jobs with fresh ids, all at once
    Burst { ty: usize, n: u16, how: How, dur_us: u64 },
    /// n fresh jobs, not due for a long time
    FarBurst { ty: usize, n: u16, delay_us: i64 },
    Cancel { ty: usize, slot: u8 },
    Update { ty: usize, slot: u8, p: Payload, ctx: Option<CtxSpec> },
    Retry { ty: usize, slot: u8 },
    Get { ty: usize, slot: u8 },
    /// None: keep the value in force
    Config { ty: usize, tick_ms: u64, max: usize },
    Plugin { delay_us: u64 },
    /// the stored record becomes unreadable (unless the job is executing)
    Spoil { ty: usize, slot: u8, kind: u8 },
    /// from here on the backend works again
    Calm,
    /// all at the same instant, by concurrent tasks
    Par(Vec<Op>),
    /// start the engine once more, with a backend that must stay unused
    Start,
    Nop,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
    pub gap_us: u64,
    pub op: Op,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Host {
    Actix,
    Tokio,
    Plain,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Be {
    Mem,
    Ref,
    Quick,
    Redis,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    /// virtual wall clock at the start, unix microseconds
    pub epoch_us: i64,
    pub sched_seed: u64,
    pub host: Host,
    pub be: Be,
    pub ids: u8,
    /// style of the queue names
    #[serde(default)]
    pub names: u8,
    pub plugins: Vec<u64>,
    pub clients: Vec<Vec<Step>>,
    /// quiet time granted at the end (virtual)
    pub settle_us: u64,
    #[serde(default)]
    pub faults: FaultPlan,
    /// steps executed by the process that takes over after a crash
    #[serde(default)]
    pub after_crash: Vec<Step>,
    /// time between the crash and the next life
    #[serde(default)]
    pub down_us: u64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum JtM {
    Normal,
    At(i64),
    Cron { expr: String, slot: i64, n: i32, max: Option<i32>, end: Option<i64> },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RetryM {
    pub retried: i32,
    pub max: Option<i32>,
    pub exp: bool,
    pub us: i64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum OpRec {
    Submit { ty: usize, id: String, how: How, jt: JtM, retry: Option<RetryM>, p: Payload },
    Cancel { ty: usize, id: String },
    Update { ty: usize, id: String, p: Payload, ctx: Option<(JtM, Option<RetryM>, usize)> },
    Retry { ty: usize, id: String },
    Get { ty: usize, id: String },
    Config { ty: usize, tick_ms: u64, max: usize },
    Plugin { p: usize, delay_us: u64 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct JobObs {
    pub id: String,
    pub status: PlugKind,
    pub jt: JtM,
    /// (a retry is permitted, delay of the next one in us)
    pub retry: Option<(bool, Option<i64>)>,
    pub created: i64,
    pub enqueue: Option<i64>,
    pub run: Option<i64>,
    pub complete: Option<i64>,
    pub cancel: Option<i64>,
    pub run_count: usize,
    pub p: Payload,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Res {
    Ok,
    Id(String),
    Bool(bool),
    Err(String),
    Hang,
    Job(Option<Box<JobObs>>),
}

pub const DEFAULT_TICK_MS: u64 = 100;
pub const DEFAULT_MAX: usize = 20;

pub const ID_STYLES: u8 = 8;
pub fn id_of(style: u8, slot: u8) -> String {
    match style % ID_STYLES {
        0 => format!("job-{slot}"),
        1 => format!("j\u{f6}b \u{2603} {slot}"),
        2 => format!("{slot}"),
        3 => format!("{{\"a\":\"{slot}:queue:Running\"}}"),
        4 => format!("aj_storage:{slot}\r\n*x"),
        // nearly the same
        5 => match slot {
            0 => "job".into(),
            1 => "Job".into(),
            2 => "job ".into(),
            3 => " job".into(),
            4 => "job\0".into(),
            5 => "job\n".into(),
            6 => "jo".into(),
            7 => "jobjob".into(),
            _ => format!("job{slot}"),
        },
        6 => match slot {
            0 => "1".into(),
            1 => "01".into(),
            2 => "+1".into(),
            3 => "1.0".into(),
            4 => "1e0".into(),
            5 => "-1".into(),
            6 => "0x1".into(),
            _ => "1".repeat(slot as usize),
        },
        _ => {
            if slot == 0 {
                String::new()
            } else {
                "x".repeat(slot as usize * 40)
            }
        }
    }
}

pub fn floor_us(ns: i64) -> i64 {
    ns.div_euclid(1000)
}
pub fn next_slot_us(expr: &str, after_us: i64) -> Option<i64> {
    let s = cron::Schedule::from_str(expr).ok()?;
    let t = DateTime::<Utc>::from_timestamp_micros(after_us)?;
    s.after(&t).next().map(|x| x.timestamp_micros())
}

fn dt(us: i64) -> DateTime<Utc> {
    DateTime::<Utc>::from_timestamp_micros(us).expect("instant out of range")
}

/// End of a cron job; even offsets mean the whole second before, which is often exactly a slot.
fn end_us(now_ns: i64, x: i64) -> i64 {
    let end = floor_us(now_ns) + x;
    if x % 2 == 0 {
        end.div_euclid(1_000_000) * 1_000_000
    } else {
        end
    }
}

/// What a schedule request means now, computed without the code under test.
pub fn jt_of(s: &Sched, now_ns: i64) -> JtM {
    match s {
        Sched::Now => JtM::Normal,
        Sched::Delay(us) | Sched::At(us) => JtM::At(floor_us(now_ns) + us),
        Sched::Cron(e, max, end) => JtM::Cron {
            expr: e.clone(),
            slot: next_slot_us(e, floor_us(now_ns)).unwrap_or(floor_us(now_ns)),
            n: 1,
            max: *max,
            end: end.map(|x| end_us(now_ns, x)),
        },
    }
}
pub fn retry_model(r: &RetrySpec) -> RetryM {
    match r {
        RetrySpec::Default => RetryM { retried: 0, max: Some(3), exp: false, us: 100_000 },
        RetrySpec::Interval(m, us) => RetryM { retried: 0, max: *m, exp: false, us: *us },
        RetrySpec::Exp(m, us) => RetryM { retried: 0, max: *m, exp: true, us: *us },
    }
}
fn retry_real(r: &RetrySpec) -> Retry {
    let d = chrono::Duration::microseconds;
    match r {
        RetrySpec::Default => Retry::default(),
        RetrySpec::Interval(m, us) => Retry::new_interval_retry(*m, d(*us)),
        RetrySpec::Exp(m, us) => Retry::new_exponential_backoff(*m, d(*us)),
    }
}
fn type_real(s: &Sched, now_ns: i64) -> JobType {
    match s {
        Sched::Now => JobType::Normal,
        Sched::Delay(us) | Sched::At(us) => JobType::new_schedule(dt(floor_us(now_ns) + us)),
        Sched::Cron(e, max, end) => JobType::new_cron(
            e,
            CronContext {
                tick_number: 0,
                max_repeat: *max,
                end_at: end.map(|x| dt(end_us(now_ns, x))),
            },
        )
        .expect("generated cron expressions are valid"),
    }
}

/// An expression without any slot left is outside the properties: submit a plain job instead.
fn usable(s: &Sched) -> Sched {
    match s {
        Sched::Cron(e, _, _) if next_slot_us(e, floor_us(sim::unix_ns())).is_none() => Sched::Now,
        x => x.clone(),
    }
}

/// The ways of putting a job together are equivalent; which one is used depends on the data.
fn build_job<T: Jt>(id: &str, sched: &Sched, retry: &Option<RetrySpec>, p: &Payload) -> Job<T> {
    let now = sim::unix_ns();
    let data = T::make(p.clone());
    let mut job = if p.tag % 3 == 0 { Job::new(data) } else { data.job() };
    let style = p.tag / 3 % 8;
    if style >= 5 {
        // a ready-made context, possibly one that was used before
        let mut c = JobContext::new(id.to_string());
        c.job_type = type_real(sched, now);
        c.retry = retry.as_ref().map(retry_real);
        if style == 7 {
            use JobStatus::*;
            c.job_status = [Queued, Running, Finished, Failed, Canceled][(p.tag / 24 % 5) as usize];
        }
        return if p.tag % 2 == 0 { job.set_context(c) } else { job.context(c) };
    }
    let with_id = |j: Job<T>| j.set_id(id.to_string());
    let with_sched = |j: Job<T>| match sched {
        Sched::Now => j,
        Sched::Delay(us) => j.delay(chrono::Duration::microseconds(*us)),
        Sched::At(us) => j.schedule_at(dt(floor_us(now) + us)),
        Sched::Cron(e, None, None) => j.cron(e),
        Sched::Cron(..) if p.tag % 2 == 0 => j.set_job_type(type_real(sched, now)),
        Sched::Cron(..) => j.job_type(type_real(sched, now)),
    };
    let with_retry = |j: Job<T>| match retry {
        Some(r) if p.tag % 2 == 0 => j.set_retry(retry_real(r)),
        Some(r) => j.retry(retry_real(r)),
        None => j,
    };
    match style {
        3 => job = with_id(with_sched(with_retry(job))),
        4 => job = with_sched(with_id(with_retry(job))),
        _ => job = with_retry(with_sched(with_id(job))),
    }
    job
}

fn jt_obs(t: &JobType) -> JtM {
    match t {
        JobType::Normal => JtM::Normal,
        JobType::ScheduledAt(t) => JtM::At(t.timestamp_micros()),
        JobType::Cron(e, slot, n, ctx) => JtM::Cron {
            expr: e.clone(),
            slot: slot.timestamp_micros(),
            n: *n,
            max: ctx.max_repeat,
            end: ctx.end_at.map(|x| x.timestamp_micros()),
        },
    }
}

pub fn obs<T: Jt>(j: Job<T>) -> JobObs {
    let t0 = dt(1_000_000_000_000_000);
    let retry = j.context.retry.clone().map(|mut r| {
        let s = r.should_retry();
        let d = if s { Some((r.retry_at(Some(t0)) - t0).num_microseconds().unwrap_or(i64::MAX)) } else { None };
        (s, d)
    });
    JobObs {
        id: j.context.job_id.clone(),
        status: plug_of(j.context.job_status),
        jt: jt_obs(&j.context.job_type),
        retry,
        created: j.context.created_at,
        enqueue: j.context.enqueue_at,
        run: j.context.run_at,
        complete: j.context.complete_at,
        cancel: j.context.cancel_at,
        run_count: j.context.run_count,
        p: j.data.payload().clone(),
    }
}

/// virtual time after which a call that has not returned is called hung
const HANG: Duration = Duration::from_secs(1800);

/// A backend that must never be used.
struct Decoy;
impl Decoy {
    fn used<T>(&self) -> Result<T, aj::Error> {
        log(Ev::Panic { msg: "the backend of a later AJ::start is in use".into() });
        Err(aj::Error::NoQueueRegister)
    }
}
impl aj::backend::types::Backend for Decoy {
    fn queue_push(&self, _: &str, _: &str) -> Result<(), aj::Error> {
        self.used()
    }
    fn queue_move(&self, _: &str, _: &str, _: usize, _: QueueDirection, _: QueueDirection) -> Result<Vec<String>, aj::Error> {
        self.used()
    }
    fn queue_remove(&self, _: &str, _: &str) -> Result<(), aj::Error> {
        self.used()
    }
    fn queue_get(&self, _: &str, _: usize, _: QueueDirection) -> Result<Vec<String>, aj::Error> {
        self.used()
    }
    fn queue_count(&self, _: &str) -> Result<usize, aj::Error> {
        self.used()
    }
    fn storage_upsert(&self, _: &str, _: &str, _: String) -> Result<(), aj::Error> {
        self.used()
    }
    fn storage_get(&self, _: &str, _: &str) -> Result<Option<String>, aj::Error> {
        self.used()
    }
}

pub struct Driver {
    ids: u8,
    slots: Mutex<HashMap<(usize, u8), String>>,
    pub known: Mutex<Vec<(usize, String)>>,
    calls: Mutex<usize>,
    /// per job type
    fresh: Mutex<[u32; 8]>,
    plugins: Mutex<usize>,
}

impl Driver {
    pub fn new(ids: u8) -> Self {
        Driver {
            ids,
            slots: Default::default(),
            known: Default::default(),
            calls: Default::default(),
            fresh: Default::default(),
            plugins: Default::default(),
        }
    }
    fn call(&self, op: OpRec) -> usize {
        let mut c = self.calls.lock().unwrap();
        *c += 1;
        let n = *c;
        drop(c);
        CALL_NO.store(n as u64, SeqCst);
        CALL_OPS.store(0, SeqCst);
        IN_CALL.store(true, SeqCst);
        log(Ev::Call { call: n, op });
        n
    }
    fn ret(&self, call: usize, res: Res) {
        IN_CALL.store(false, SeqCst);
        log(Ev::Ret { call, res });
    }
    /// ids of different types are different unless the case says otherwise
    fn slot_id(&self, ty: usize, slot: u8) -> String {
        if let Some(s) = self.slots.lock().unwrap().get(&(ty, slot)) {
            return s.clone();
        }
        format!("{}{}", ["", "B", "G", "D"][ty], id_of(self.ids, slot))
    }
    fn know(&self, ty: usize, id: &str) {
        let mut k = self.known.lock().unwrap();
        if !k.iter().any(|(t, i)| *t == ty && i == id) {
            k.push((ty, id.to_string()));
        }
    }

    async fn submit(&self, ty: usize, id: &str, how: How, sched: &Sched, retry: &Option<RetrySpec>, p: &Payload) {
        self.know(ty, id);
        let sched = &usable(sched);
        let rec = OpRec::Submit {
            ty,
            id: id.to_string(),
            how,
            jt: jt_of(sched, sim::unix_ns()),
            retry: retry.as_ref().map(retry_model),
            p: p.clone(),
        };
        let call = self.call(rec);
        let res = with_ty!(ty, T => {
            let job = build_job::<T>(id, sched, retry, p);
            match how {
                How::JustRun => { job.just_run(); Res::Ok }
                _ => {
                    let fut = async move {
                        match how {
                            How::Add => AJ::add_job(job, <T as aj::BackgroundJob>::queue_name()).await,
                            How::Cfg(r, o) => {
                                let id = job.id().to_string();
                                use aj::queue::EnqueueConfig;
                                let cfg = match (r, o) {
                                    (true, true) if p.tag % 2 == 0 => EnqueueConfig::new_re_run(),
                                    (false, true) if p.tag % 2 == 0 => EnqueueConfig::new_skip_if_finished(),
                                    _ => EnqueueConfig::new(r, o),
                                };
                                AJ::enqueue_job(job, cfg, <T as aj::BackgroundJob>::queue_name()).await.map(|_| id)
                            }
                            _ => job.run().await,
                        }
                    };
                    match actix_rt::time::timeout(HANG, fut).await {
                        Err(_) => Res::Hang,
                        Ok(Ok(s)) => Res::Id(s),
                        Ok(Err(e)) => Res::Err(format!("{e:?}")),
                    }
                }
            }
        });
        self.ret(call, res);
    }

    pub async fn get(&self, ty: usize, id: &str) {
        let call = self.call(OpRec::Get { ty, id: id.to_string() });
        let res = with_ty!(ty, T => match actix_rt::time::timeout(HANG, AJ::get_job::<T>(id)).await {
            Err(_) => Res::Hang,
            Ok(j) => Res::Job(j.map(|j| Box::new(obs(j)))),
        });
        self.ret(call, res);
    }

    pub async fn op(&self, op: &Op) {
        fn unit(r: Result<Result<(), aj::Error>, tokio::time::error::Elapsed>) -> Res {
            match r {
                Err(_) => Res::Hang,
                Ok(Ok(())) => Res::Ok,
                Ok(Err(e)) => Res::Err(format!("{e:?}")),
            }
        }
        match op {
            Op::Nop | Op::Par(_) => {}
            Op::Start => {
                let want = aj_core::get_aj_address();
                let got = AJ::start(Decoy);
                if want.as_ref() != Some(&got) || aj_core::get_aj_address() != want {
                    log(Ev::Panic { msg: "starting the engine again did not return the running instance".into() });
                }
                log(Ev::Started);
            }
            Op::Spoil { ty, slot, kind } => {
                let id = self.slot_id(*ty, *slot);
                let busy = with_ty!(*ty, T => AJ::get_job::<T>(&id).await.is_none_or(|j| j.is_running()));
                let store = REF_STORE.lock().unwrap().clone();
                if let (false, Some(s)) = (busy, store) {
                    let mut s = s.lock().unwrap();
                    for h in s.hashes.values_mut() {
                        let Some(v) = h.get(&id).cloned() else { continue };
                        let cut: String = v.chars().take(v.chars().count() * 2 / 3).collect();
                        let bad = match kind % 8 {
                            0 => String::new(),
                            1 => "null".into(),
                            2 => cut,
                            3 => "[]".into(),
                            4 => "{}".into(),
                            5 => "not a record \u{0}\u{fffd}".into(),
                            6 => format!("{v}}}"),
                            _ => {
                                h.remove(&id);
                                continue;
                            }
                        };
                        h.insert(id.clone(), bad);
                    }
                    log(Ev::Spoil { ty: *ty, id });
                }
            }
            Op::Calm => {
                ARMED.store(false, SeqCst);
                log(Ev::Calm);
            }
            Op::Submit { ty, slot, auto, how, sched, retry, p } => {
                if *auto {
                    // a library-generated id
                    let id = with_ty!(*ty, T => {
                        let j: Job<T> = build_job::<T>("", sched, retry, p);
                        drop(j);
                        aj::Job::new(T::make(p.clone())).id().to_string()
                    });
                    self.slots.lock().unwrap().insert((*ty, *slot), id);
                }
                let id = self.slot_id(*ty, *slot);
                self.submit(*ty, &id, *how, sched, retry, p).await
            }
            Op::Burst { ty, n, how, dur_us } => {
                for _ in 0..*n {
                    let id = self.fresh_id(*ty);
                    let p = Payload { tag: 7, runs: vec![RunSpec { dur_us: *dur_us, ..Default::default() }], ..Default::default() };
                    self.submit(*ty, &id, *how, &Sched::Now, &None, &p).await;
                    if *how == How::JustRun {
                        // keep the submission order observable
                        sim::sleep_ns(1000).await;
                    }
                }
            }
            Op::FarBurst { ty, n, delay_us } => {
                for _ in 0..*n {
                    let id = self.fresh_id(*ty);
                    let p = Payload { tag: 8, ..Default::default() };
                    self.submit(*ty, &id, How::Run, &Sched::Delay(*delay_us), &None, &p).await;
                }
            }
            Op::Cancel { ty, slot } => {
                let id = self.slot_id(*ty, *slot);
                let call = self.call(OpRec::Cancel { ty: *ty, id: id.clone() });
                let r = with_ty!(*ty, T => unit(actix_rt::time::timeout(HANG, AJ::cancel_job::<T>(id)).await));
                self.ret(call, r);
            }
            Op::Update { ty, slot, p, ctx } => {
                let id = self.slot_id(*ty, *slot);
                let now = sim::unix_ns();
                let ctx = ctx.clone().map(|mut c| {
                    c.sched = usable(&c.sched);
                    c
                });
                let rec = OpRec::Update {
                    ty: *ty,
                    id: id.clone(),
                    p: p.clone(),
                    ctx: ctx.as_ref().map(|c| (jt_of(&c.sched, now), c.retry.as_ref().map(retry_model), c.run_count as usize)),
                };
                let call = self.call(rec);
                let real = ctx.as_ref().map(|spec| {
                    let cid = match spec.id {
                        CtxId::Same => id.clone(),
                        CtxId::Other => format!("{id}-other"),
                        CtxId::Empty => String::new(),
                    };
                    let mut c = JobContext::new(cid);
                    c.job_type = type_real(&spec.sched, now);
                    c.retry = spec.retry.as_ref().map(retry_real);
                    c.job_status = [JobStatus::Queued, JobStatus::Running, JobStatus::Finished, JobStatus::Failed, JobStatus::Canceled]
                        [spec.status as usize % 5];
                    c.run_count = spec.run_count as usize;
                    c
                });
                let r = with_ty!(*ty, T => unit(
                    actix_rt::time::timeout(HANG, AJ::update_job::<T>(&id, T::make(p.clone()), real)).await));
                self.ret(call, r);
            }
            Op::Retry { ty, slot } => {
                let id = self.slot_id(*ty, *slot);
                let call = self.call(OpRec::Retry { ty: *ty, id: id.clone() });
                let r = with_ty!(*ty, T => match actix_rt::time::timeout(HANG, AJ::retry_job::<T>(&id)).await {
                    Err(_) => Res::Hang,
                    Ok(Ok(b)) => Res::Bool(b),
                    Ok(Err(e)) => Res::Err(format!("{e:?}")),
                });
                self.ret(call, r);
            }
            Op::Get { ty, slot } => {
                let id = self.slot_id(*ty, *slot);
                self.get(*ty, &id).await
            }
            Op::Config { ty, tick_ms, max } => {
                let call = self.call(OpRec::Config { ty: *ty, tick_ms: *tick_ms, max: *max });
                let cfg = WorkQueueConfig {
                    process_tick_duration: Duration::from_millis(*tick_ms),
                    max_processing_jobs: *max,
                };
                let r = with_ty!(*ty, T => unit(actix_rt::time::timeout(HANG, AJ::update_work_queue::<T>(cfg)).await));
                self.ret(call, r);
            }
            Op::Plugin { delay_us } => {
                let p = {
                    let mut g = self.plugins.lock().unwrap();
                    *g += 1;
                    *g - 1
                };
                let call = self.call(OpRec::Plugin { p, delay_us: *delay_us });
                let r = actix_rt::time::timeout(HANG, AJ::register_plugin(RecPlugin { p, delay_us: *delay_us })).await;
                self.ret(call, unit(r));
            }
        }
    }
    fn fresh_id(&self, ty: usize) -> String {
        let mut f = self.fresh.lock().unwrap();
        f[ty] += 1;
        format!("fresh-{ty}-{}", f[ty])
    }
}

static REF_STORE: Mutex<Option<Arc<Mutex<Store>>>> = Mutex::new(None);

fn start_backend(case: &Case, snapshot: Option<Store>) {
    let on_crash: Box<dyn Fn() + Send + Sync>;
    match case.be {
        Be::Quick => {
            AJ::quick_start();
        }
        Be::Mem => {
            AJ::start(Traced { inner: aj::mem::InMemory::default(), plan: case.faults.clone(), on_crash: None });
        }
        Be::Redis => {
            let url = crate::fakeredis::serve();
            AJ::start(Traced { inner: aj::redis::Redis::new(url), plan: case.faults.clone(), on_crash: None });
        }
        Be::Ref => {
            let b = RefBackend(Arc::new(Mutex::new(snapshot.unwrap_or_default())));
            let b2 = b.clone();
            *REF_STORE.lock().unwrap() = Some(b.0.clone());
            on_crash = Box::new(move || {
                let s = b2.0.lock().unwrap().clone();
                crate::forked::finish(&crate::forked::Outcome::Crashed { log: take_log(), store: s, vnow: sim::now() });
            });
            AJ::start(Traced { inner: b, plan: case.faults.clone(), on_crash: Some(on_crash) });
        }
    }
}

pub fn take_log() -> Vec<Rec> {
    std::mem::take(&mut *LOG.lock().unwrap_or_else(|e| e.into_inner()))
}

/// End the case process right now with what has been observed.
pub fn abort_case(why: &str) -> ! {
    log(Ev::Panic { msg: format!("ABORT: {why}") });
    crate::forked::finish(&crate::forked::Outcome::Log { log: take_log(), steps: sim::steps() });
}
/// The case takes too long; what was observed so far is still valid.
pub fn cut_case() -> ! {
    log(Ev::Cut);
    crate::forked::finish(&crate::forked::Outcome::Log { log: take_log(), steps: sim::MAX_STEPS });
}
fn on_stuck(why: &str) -> ! {
    abort_case(why)
}

async fn run_clients(d: Arc<Driver>, clients: Vec<Vec<Step>>, plugins: Vec<u64>, settle_us: u64) {
    for (i, delay) in plugins.iter().enumerate() {
        let _ = i;
        d.op(&Op::Plugin { delay_us: *delay }).await;
    }
    let mut joins = vec![];
    let mut residue = 1u64;
    for steps in clients {
        let d = d.clone();
        let base = residue;
        residue += steps.len() as u64 + 1;
        joins.push(tokio::task::spawn_local(async move {
            for (i, s) in steps.iter().enumerate() {
                // every operation has its own sub-microsecond residue, and all durations are whole
                // microseconds: no operation ever coincides with engine activity
                let at = (sim::now() / 1000 + s.gap_us + 1) * 1000 + (base + i as u64) % 997;
                sim::sleep_until(at).await;
                if let Op::Par(ops) = &s.op {
                    let mut js = vec![];
                    for o in ops {
                        let (d, o) = (d.clone(), o.clone());
                        js.push(tokio::task::spawn_local(async move { d.op(&o).await }));
                    }
                    for j in js {
                        let _ = j.await;
                    }
                } else {
                    d.op(&s.op).await;
                }
            }
        }));
    }
    for j in joins {
        let _ = j.await;
    }
    // quiet time, in pieces: stop early once nothing happens any more
    let at = (sim::now() / 1000 + settle_us) * 1000 + 998;
    sim::sleep_until(at).await;
    ARMED.store(false, SeqCst);
    log(Ev::Sweep);
    let known = d.known.lock().unwrap().clone();
    for (ty, id) in known {
        d.get(ty, &id).await;
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        if msg.contains(SCRIPTED_PANIC) || info.payload().is::<OddPanic>() {
            return;
        }
        log(Ev::Panic { msg });
    }));
}

/// Runs in the forked child; never returns normally without a complete log.
pub fn run_child(case: &Case, snapshot: Option<(Store, u64, HashMap<(usize, String), usize>)>) -> Vec<Rec> {
    install_panic_hook();
    let mut epoch_ns = case.epoch_us * 1000;
    let after = snapshot.is_some();
    let mut store = None;
    if let Some((s, vnow, execs)) = snapshot {
        store = Some(s);
        // time goes on across the crash, with a pause
        epoch_ns += vnow as i64;
        TIME_OFFSET.store(vnow, SeqCst);
        seed_execs(execs);
    }
    NAMES.store(case.names, SeqCst);
    // the local time zone of the process must not matter
    const ZONES: &[&str] = &["UTC0", "AAA-5:30", "UTC0", "BBB8", "UTC0", "CCC-13:45", "DDD3EEE,M3.2.0,M11.1.0"];
    log::set_max_level(if case.epoch_us % 2 == 0 { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    std::env::set_var("TZ", ZONES[(case.epoch_us % 997) as usize % ZONES.len()]);
    sim::enable(case.sched_seed, epoch_ns, on_stuck);
    let d = Arc::new(Driver::new(case.ids));
    if after {
        // numbers and ids of the second life are its own
        *d.calls.lock().unwrap() = 1_000_000;
        *d.fresh.lock().unwrap() = [10_000; 8];
    }
    let (clients, plugins) = if after {
        (vec![case.after_crash.clone()], vec![])
    } else {
        (case.clients.clone(), case.plugins.clone())
    };
    let mut case2 = case.clone();
    if after {
        case2.faults = FaultPlan::default();
    }
    ARMED.store(!after, SeqCst);
    let settle = case.settle_us;
    match case.host {
        Host::Actix => actix_rt::System::new().block_on(async move {
            start_backend(&case2, store);
            run_clients(d, clients, plugins, settle).await;
        }),
        Host::Tokio => {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            tokio::task::LocalSet::new().block_on(&rt, async move {
                start_backend(&case2, store);
                run_clients(d, clients, plugins, settle).await;
            })
        }
        Host::Plain => {
            start_backend(&case2, store);
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            tokio::task::LocalSet::new().block_on(&rt, async move {
                run_clients(d, clients, plugins, settle).await;
            })
        }
    }
    take_log()
}
