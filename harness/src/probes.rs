//! Minimal reproductions of the recorded known findings (KNOWN_FINDINGS.md): each answers whether
//! the finding still shows.
use std::future::Future;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::Duration;

use aj::backend::types::{Backend, QueueDirection};
use aj::{BackgroundJob, Error, AJ};
use serde_json::json;

use crate::backends::{FaultPlan, RefBackend};
use crate::engine::*;
use crate::forked::{self, Outcome};
use crate::jobs::*;
use crate::props::run_engine;
use crate::sim;

fn in_sim<F: Future<Output = bool>>(f: impl FnOnce() -> F) -> Option<bool> {
    let o = forked::run(move || {
        install_panic_hook();
        sim::enable(1, 1_700_000_000_000_000_000, |w| abort_case(w));
        let r = actix_rt::System::new().block_on(f());
        Outcome::Val(json!(r))
    });
    match o {
        Ok(Outcome::Val(v)) => v.as_bool(),
        _ => None,
    }
}
fn p() -> Payload {
    Payload { tag: 1, runs: vec![RunSpec { dur_us: 10_000, ..Default::default() }], ..Default::default() }
}
async fn wait(ms: u64) {
    sim::sleep_ns(ms * 1_000_000 + 7).await
}
fn starts(id: &str) -> usize {
    LOG.lock().unwrap().iter().filter(|r| matches!(&r.ev, Ev::Start { id: i, .. } if i == id)).count()
}

/// Fails the operations selected by what is set in FAIL, that many times.
struct Picky(RefBackend, &'static str);
static FAIL: AtomicU32 = AtomicU32::new(0);
impl Picky {
    fn step(&self, what: &str) -> Result<(), Error> {
        if what.starts_with(self.1) && FAIL.load(SeqCst) > 0 {
            FAIL.fetch_sub(1, SeqCst);
            return Err(Error::NoQueueRegister);
        }
        Ok(())
    }
}
impl Backend for Picky {
    fn queue_push(&self, q: &str, i: &str) -> Result<(), Error> {
        self.0.queue_push(q, i)
    }
    fn queue_move(&self, f: &str, t: &str, n: usize, a: QueueDirection, b: QueueDirection) -> Result<Vec<String>, Error> {
        self.step(if f != t { "move" } else { "rotate" })?;
        self.0.queue_move(f, t, n, a, b)
    }
    fn queue_remove(&self, q: &str, i: &str) -> Result<(), Error> {
        self.step("remove")?;
        self.0.queue_remove(q, i)
    }
    fn queue_get(&self, q: &str, n: usize, d: QueueDirection) -> Result<Vec<String>, Error> {
        self.0.queue_get(q, n, d)
    }
    fn queue_count(&self, q: &str) -> Result<usize, Error> {
        self.0.queue_count(q)
    }
    fn storage_upsert(&self, h: &str, k: &str, v: String) -> Result<(), Error> {
        self.step("upsert")?;
        self.0.storage_upsert(h, k, v)
    }
    fn storage_get(&self, h: &str, k: &str) -> Result<Option<String>, Error> {
        self.0.storage_get(h, k)
    }
}

/// Jobs that were executing when the process died keep their slots: 20 of them stop the queue.
pub fn crash_slots() -> Option<bool> {
    let burst = |n, dur_us| Op::Burst { ty: 0, n, how: How::Run, dur_us };
    let c = Case {
        epoch_us: 1_718_000_000_000_000,
        sched_seed: 1,
        host: Host::Actix,
        be: Be::Ref,
        ids: 0,
        names: 0,
        plugins: vec![],
        clients: vec![vec![Step { gap_us: 0, op: burst(20, 1_000_000_000) }, Step { gap_us: 500_000, op: burst(1, 0) }]],
        settle_us: 5_000_000,
        faults: FaultPlan { crash_call: Some((21, 0)), ..Default::default() },
        after_crash: vec![Step { gap_us: 0, op: burst(1, 0) }],
        down_us: 0,
    };
    let (log, _) = run_engine(&c).ok()?;
    let at = log.iter().position(|r| r.ev == Ev::Crash)?;
    Some(!log[at..].iter().any(|r| matches!(r.ev, Ev::Start { .. })))
}

/// A failing removal when a run ends loses its slot for good.
pub fn slot_release() -> Option<bool> {
    in_sim(|| async {
        AJ::start(Picky(RefBackend::default(), "remove"));
        for i in 0..20 {
            let _ = Alpha::make(p()).job().set_id(format!("j{i}")).run().await;
        }
        wait(101).await;
        // mark_job_is_finished removes once
        FAIL.store(20, SeqCst);
        wait(300).await;
        FAIL.store(0, SeqCst);
        let _ = Alpha::make(p()).job().set_id("next".into()).run().await;
        wait(5000).await;
        starts("next") == 0
    })
}

/// The record of a run that ends cannot be written, twice: the job stays reported as running.
pub fn stale_running() -> Option<bool> {
    in_sim(|| async {
        AJ::start(Picky(RefBackend::default(), "upsert"));
        let _ = Alpha::make(p()).job().set_id("j".into()).run().await;
        while starts("j") == 0 {
            wait(1).await;
        }
        FAIL.store(2, SeqCst);
        wait(1000).await;
        FAIL.store(0, SeqCst);
        let ok = Alpha::make(p()).job().set_id("j".into()).run().await.is_ok();
        wait(2000).await;
        ok && starts("j") == 1
    })
}

/// A failing move while a job is being started: it is reported as running though it still waits,
/// so a cancel in this moment is answered with success and has no effect.
pub fn half_started() -> Option<bool> {
    in_sim(|| async {
        AJ::start(Picky(RefBackend::default(), "move"));
        FAIL.store(1, SeqCst);
        let _ = Alpha::make(p()).job().set_id("j".into()).run().await;
        while FAIL.load(SeqCst) > 0 {
            wait(1).await;
        }
        let ok = AJ::cancel_job::<Alpha>("j".into()).await.is_ok();
        wait(2000).await;
        ok && starts("j") == 1
    })
}

/// Registering a plugin outside an actix system panics.
pub fn plugin_host() -> Option<bool> {
    let o = forked::run(|| {
        install_panic_hook();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            tokio::task::LocalSet::new().block_on(&rt, async {
                AJ::quick_start();
                let _ = AJ::register_plugin(RecPlugin { p: 0, delay_us: 0 }).await;
            })
        }));
        Outcome::Val(json!(r.is_err()))
    });
    match o {
        Ok(Outcome::Val(v)) => v.as_bool(),
        _ => None,
    }
}

mod twin {
    use super::*;
    #[derive(BackgroundJob, serde::Serialize, serde::Deserialize, Debug, Clone)]
    pub struct Alpha {
        pub x: u8,
    }
    #[aj::async_trait]
    impl aj::Executable for Alpha {
        type Output = ();
        async fn execute(&mut self, _: &aj::JobContext) {}
    }
}
/// Two job types of the same name: using the second one stops the engine.
pub fn same_name() -> Option<bool> {
    in_sim(|| async {
        AJ::quick_start();
        let _ = Alpha::make(p()).job().run().await;
        let second = actix_rt::time::timeout(Duration::from_secs(60), twin::Alpha { x: 1 }.job().run()).await;
        let third = actix_rt::time::timeout(Duration::from_secs(60), Beta::make(p()).job().run()).await;
        !matches!(second, Ok(Ok(_))) && !matches!(third, Ok(Ok(_)))
    })
}
