//! Job types used as workload, and the event log they write to.
use std::collections::HashMap;
use std::sync::Mutex;

use aj::job::{JobStatus, Retry};
use aj::{async_trait, BackgroundJob, Executable, JobContext, JobPlugin};
use chrono::{DateTime, Utc};
use serde::{Deserialize, Serialize};

use crate::sim;

/// What one run of a job does.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct RunSpec {
    /// how long the run takes (virtual time)
    pub dur_us: u64,
    /// cooperative yields before ending
    #[serde(default)]
    pub yields: u8,
    /// outcome of `execute`
    pub fail: bool,
    /// `post_execute` turns the outcome around
    #[serde(default)]
    pub post_flip: bool,
    /// 0 no panic, 1 at the start of execute, 2 at its end, 3 in pre_execute, 4 in post_execute,
    /// 5 when the output is judged, 6 when a retry is decided on
    #[serde(default)]
    pub panic: u8,
    /// blocks its thread while it runs
    #[serde(default)]
    pub block: bool,
}

/// The data of a job.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Payload {
    pub tag: u32,
    pub text: String,
    /// incremented by every run: state that must be carried over
    pub counter: u32,
    /// run k (counted over the life of the id by the harness) uses runs[min(k, len-1)]
    pub runs: Vec<RunSpec>,
    /// custom retry decisions (only used by the type that overrides `retry_at`):
    /// k-th decision: delay in us, or None
    #[serde(default)]
    pub custom: Vec<Option<i64>>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    Pre { ty: usize, id: String, rc: usize, #[serde(default)] running: bool },
    Start { ty: usize, id: String, rc: usize, running: bool, p: Payload },
    /// end of `execute`; fail = the planned final outcome (after post_execute)
    End { ty: usize, id: String, fail: bool, panic: bool },
    Post { ty: usize, id: String, #[serde(default)] rc: usize, #[serde(default)] running: bool },
    /// custom `retry_at` was consulted
    RetryAsk { ty: usize, id: String, answer_us: Option<i64> },
    Plug { p: usize, kind: PlugKind, id: String },
    Call { call: usize, op: crate::engine::OpRec },
    Ret { call: usize, res: crate::engine::Res },
    Panic { msg: String },
    /// the process died here and a new one took over (crash cases)
    Crash,
    /// the case was cut off here (too many steps)
    Cut,
    /// no more injected failures from here on
    Calm,
    /// the final look-ups begin
    Sweep,
    /// the engine was started once more
    Started,
    /// the record of this job was made unreadable
    Spoil { ty: usize, id: String },
    /// backend operation failed by the fault plan
    Fault { op: String },
    /// a record was stored successfully
    Stored { id: String, kind: PlugKind },
    /// a queue of the backend was used
    Look { key: String },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum PlugKind {
    Before,
    After,
    Queued,
    Running,
    Finished,
    Failed,
    Canceled,
}
pub fn plug_of(s: JobStatus) -> PlugKind {
    match s {
        JobStatus::Queued => PlugKind::Queued,
        JobStatus::Running => PlugKind::Running,
        JobStatus::Finished => PlugKind::Finished,
        JobStatus::Failed => PlugKind::Failed,
        JobStatus::Canceled => PlugKind::Canceled,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rec {
    /// virtual ns since the start of the case
    pub t: u64,
    pub ev: Ev,
}

pub static LOG: Mutex<Vec<Rec>> = Mutex::new(Vec::new());
static EXECS: Mutex<Option<HashMap<(usize, String), usize>>> = Mutex::new(None);
static ASKS: Mutex<Option<HashMap<(usize, String), usize>>> = Mutex::new(None);
pub static TIME_OFFSET: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub const SCRIPTED_PANIC: &str = "scripted job panic";

/// the payload of a panic that is not a text
pub struct OddPanic;
/// A panic of job code: with a text, an owned text or something else.
fn scripted_panic(text: &str) -> ! {
    match text.len() % 3 {
        0 => panic!("{}", SCRIPTED_PANIC),
        1 => std::panic::panic_any(SCRIPTED_PANIC),
        _ => std::panic::panic_any(OddPanic),
    }
}

pub fn log(ev: Ev) {
    let t = sim::now() + TIME_OFFSET.load(std::sync::atomic::Ordering::SeqCst);
    LOG.lock().unwrap_or_else(|e| e.into_inner()).push(Rec { t, ev });
}

/// Number of execute() calls so far for an id (harness side count).
pub fn seed_execs(map: HashMap<(usize, String), usize>) {
    *EXECS.lock().unwrap() = Some(map);
}
fn next_exec(ty: usize, id: &str) -> usize {
    let mut g = EXECS.lock().unwrap_or_else(|e| e.into_inner());
    let m = g.get_or_insert_with(HashMap::new);
    let e = m.entry((ty, id.to_string())).or_insert(0);
    *e += 1;
    *e - 1
}
fn cur_exec(ty: usize, id: &str) -> usize {
    let mut g = EXECS.lock().unwrap_or_else(|e| e.into_inner());
    let m = g.get_or_insert_with(HashMap::new);
    *m.get(&(ty, id.to_string())).unwrap_or(&0)
}

pub fn spec_at(p: &Payload, k: usize) -> RunSpec {
    if p.runs.is_empty() {
        return RunSpec::default();
    }
    p.runs[k.min(p.runs.len() - 1)].clone()
}

#[derive(Debug, Clone, PartialEq)]
pub struct Out {
    pub fail: bool,
    pub id: String,
    /// judging this output panics
    pub boom: bool,
    /// deciding about a retry panics
    pub boom_retry: bool,
}

pub async fn do_pre(ty: usize, p: &mut Payload, ctx: &JobContext) {
    log(Ev::Pre { ty, id: ctx.job_id.clone(), rc: ctx.run_count, running: ctx.job_status == JobStatus::Running });
    let k = cur_exec(ty, &ctx.job_id);
    if spec_at(p, k).panic == 3 {
        next_exec(ty, &ctx.job_id);
        log(Ev::Start {
            ty,
            id: ctx.job_id.clone(),
            rc: ctx.run_count,
            running: ctx.job_status == JobStatus::Running,
            p: p.clone(),
        });
        log(Ev::End { ty, id: ctx.job_id.clone(), fail: true, panic: true });
        scripted_panic(&p.text);
    }
}

pub async fn do_execute(ty: usize, p: &mut Payload, ctx: &JobContext) -> Out {
    let id = ctx.job_id.clone();
    let k = next_exec(ty, &id);
    log(Ev::Start {
        ty,
        id: id.clone(),
        rc: ctx.run_count,
        running: ctx.job_status == JobStatus::Running,
        p: p.clone(),
    });
    let spec = spec_at(p, k);
    p.counter += 1;
    if spec.panic == 1 {
        log(Ev::End { ty, id: id.clone(), fail: true, panic: true });
        scripted_panic(&p.text);
    }
    if spec.dur_us > 0 && spec.block {
        std::thread::sleep(std::time::Duration::from_micros(spec.dur_us));
    } else if spec.dur_us > 0 {
        sim::sleep_ns(spec.dur_us * 1000).await;
    }
    for _ in 0..spec.yields {
        tokio::task::yield_now().await;
    }
    let fail = spec.fail ^ spec.post_flip;
    if spec.panic == 2 || spec.panic >= 4 {
        log(Ev::End { ty, id: id.clone(), fail: true, panic: true });
        if spec.panic == 2 {
            scripted_panic(&p.text);
        }
    } else {
        log(Ev::End { ty, id: id.clone(), fail, panic: false });
    }
    let asked = ty == 2 && ctx.retry.is_some();
    Out { fail: spec.fail, id, boom: spec.panic == 5 || spec.panic == 6 && !asked, boom_retry: spec.panic == 6 }
}

pub async fn do_post(ty: usize, p: &mut Payload, out: Out, ctx: &JobContext) -> Out {
    let k = cur_exec(ty, &ctx.job_id).saturating_sub(1);
    let spec = spec_at(p, k);
    if spec.panic == 4 {
        scripted_panic(&p.text);
    }
    if spec.panic < 5 {
        log(Ev::Post { ty, id: ctx.job_id.clone(), rc: ctx.run_count, running: ctx.job_status == JobStatus::Running });
    }
    Out { fail: out.fail ^ spec.post_flip, ..out }
}

/// Uniform access to the workload job types.
pub trait Jt:
    BackgroundJob
    + Executable
    + Unpin
    + Send
    + Sync
    + Clone
    + Serialize
    + serde::de::DeserializeOwned
    + 'static
{
    fn make(p: Payload) -> Self;
    fn payload(&self) -> &Payload;
}

/// which queue names `Alpha` and `Gamma` have in this case
pub static NAMES: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
pub const NAME_STYLES: u8 = 7;
const LONG1: &str = "a_queue_name_that_is_quite_long_and_shared_up_to_its_very_last_character_by_two_types_of_jobs_1";
const LONG2: &str = "a_queue_name_that_is_quite_long_and_shared_up_to_its_very_last_character_by_two_types_of_jobs_2";
/// (`Beta` and `AlphaB` have the names the derive macro gives them)
fn style_name(ty: usize) -> &'static str {
    let s = NAMES.load(std::sync::atomic::Ordering::SeqCst) % NAME_STYLES;
    match (s, ty) {
        (0, 0) => "Alpha",
        (0, _) => "Gamma",
        (1, 0) => LONG1,
        (1, _) => LONG2,
        (2, 0) => "Beta:queue",
        (2, _) => "Beta:queue:Running",
        (3, 0) => "beta",
        (3, _) => "BETA",
        (4, 0) => "",
        (4, _) => " ",
        (5, 0) => "aj_storage",
        (5, _) => "Beta ",
        (_, 0) => "\u{fc}ber \r\n{}%s",
        (_, _) => "u\u{308}ber \r\n{}%s",
    }
}

macro_rules! job_type {
    ($name:ident, $field:ident, $ty:expr, named, { $($extra:tt)* }) => {
        impl BackgroundJob for $name {
            fn queue_name() -> &'static str {
                style_name($ty)
            }
            fn job(self) -> aj::Job<Self> {
                aj::Job::new(self)
            }
        }
        job_type!(@ $name, $field, $ty, { $($extra)* }, );
    };
    ($name:ident, $field:ident, $ty:expr, derived, { $($extra:tt)* }) => {
        job_type!(@ $name, $field, $ty, { $($extra)* }, #[derive(BackgroundJob)]);
    };
    (@ $name:ident, $field:ident, $ty:expr, { $($extra:tt)* }, $(#[$d:meta])?) => {
        $(#[$d])?
        #[derive(Serialize, Deserialize, Debug, Clone)]
        pub struct $name {
            pub $field: Payload,
        }
        impl Jt for $name {
            fn make(p: Payload) -> Self {
                Self { $field: p }
            }
            fn payload(&self) -> &Payload {
                &self.$field
            }
        }
        #[async_trait]
        impl Executable for $name {
            type Output = Out;
            async fn pre_execute(&mut self, ctx: &JobContext) {
                do_pre($ty, &mut self.$field, ctx).await
            }
            async fn execute(&mut self, ctx: &JobContext) -> Out {
                do_execute($ty, &mut self.$field, ctx).await
            }
            async fn post_execute(&mut self, out: Out, ctx: &JobContext) -> Out {
                do_post($ty, &mut self.$field, out, ctx).await
            }
            async fn is_failed_output(&self, out: &Out) -> bool {
                if out.boom {
                    scripted_panic(&self.$field.text);
                }
                out.fail
            }
            $($extra)*
        }
    };
}

job_type!(Alpha, a, 0, named, {});
job_type!(Beta, b, 1, derived, {});
// overrides the retry decision
job_type!(Gamma, g, 2, named, {
    async fn retry_at(&self, _retry: &mut Retry, out: Out) -> Option<DateTime<Utc>> {
        custom_retry(2, &self.g, &out)
    }
});
// same shape as Alpha, and a name that starts like it
job_type!(AlphaB, a, 3, derived, {});

fn custom_retry(ty: usize, p: &Payload, out: &Out) -> Option<DateTime<Utc>> {
    if out.boom_retry {
        scripted_panic(&p.text);
    }
    let k = {
        let mut g = ASKS.lock().unwrap_or_else(|e| e.into_inner());
        let m = g.get_or_insert_with(HashMap::new);
        let e = m.entry((ty, out.id.clone())).or_insert(0);
        *e += 1;
        *e - 1
    };
    let d = p.custom.get(k).cloned().flatten();
    let answer = d.map(|d| sim::unix_ns() / 1000 + d);
    log(Ev::RetryAsk { ty, id: out.id.clone(), answer_us: answer });
    answer.map(|us| DateTime::<Utc>::from_timestamp_micros(us).unwrap())
}

#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $T:ident => $e:expr) => {
        match $ty {
            0 => {
                type $T = $crate::jobs::Alpha;
                $e
            }
            1 => {
                type $T = $crate::jobs::Beta;
                $e
            }
            2 => {
                type $T = $crate::jobs::Gamma;
                $e
            }
            _ => {
                type $T = $crate::jobs::AlphaB;
                $e
            }
        }
    };
}

/// A plugin that records its callbacks; `delay_us` makes the before/after hooks take time,
/// `PANICKY` makes every hook panic.
pub const PANICKY: u64 = u64::MAX;
pub struct RecPlugin {
    pub p: usize,
    pub delay_us: u64,
}
#[async_trait]
impl JobPlugin for RecPlugin {
    async fn change_status(&self, job_id: &str, status: JobStatus) {
        if self.delay_us == PANICKY {
            scripted_panic("");
        }
        log(Ev::Plug { p: self.p, kind: plug_of(status), id: job_id.into() });
    }
    async fn before_run(&self, job_id: &str) {
        if self.delay_us == PANICKY {
            scripted_panic("");
        }
        if self.delay_us > 0 {
            sim::sleep_ns(self.delay_us * 1000).await;
        }
        log(Ev::Plug { p: self.p, kind: PlugKind::Before, id: job_id.into() });
    }
    async fn after_run(&self, job_id: &str) {
        if self.delay_us == PANICKY {
            scripted_panic("");
        }
        log(Ev::Plug { p: self.p, kind: PlugKind::After, id: job_id.into() });
        if self.delay_us > 0 {
            sim::sleep_ns(self.delay_us * 1000).await;
        }
    }
}
