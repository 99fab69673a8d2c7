//! Backends used under the engine: an independent reference implementation of the backend
//! contract, and a wrapper that counts, traces, fails or "crashes" at chosen operations.
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use aj::backend::types::{Backend, QueueDirection};
use aj::Error;
use serde::{Deserialize, Serialize};

use crate::sim;

/// Contents of a backend, in plain form (used for crash snapshots).
#[derive(Default, Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Store {
    pub queues: BTreeMap<String, VecDeque<String>>,
    pub hashes: BTreeMap<String, BTreeMap<String, String>>,
}

impl Store {
    pub fn push(&mut self, q: &str, item: &str) {
        self.queues.entry(q.into()).or_default().push_front(item.into());
    }
    pub fn mv(&mut self, from: &str, to: &str, count: usize, f: QueueDirection, t: QueueDirection) -> Vec<String> {
        let mut out = vec![];
        for _ in 0..count {
            let it = match self.queues.get_mut(from) {
                None => None,
                Some(q) => match f {
                    QueueDirection::Front => q.pop_front(),
                    QueueDirection::Back => q.pop_back(),
                },
            };
            let Some(it) = it else { break };
            let q = self.queues.entry(to.into()).or_default();
            match t {
                QueueDirection::Front => q.push_front(it.clone()),
                QueueDirection::Back => q.push_back(it.clone()),
            }
            out.push(it);
        }
        out
    }
    pub fn remove(&mut self, q: &str, item: &str) {
        if let Some(q) = self.queues.get_mut(q) {
            q.retain(|x| x != item);
        }
    }
    pub fn get(&self, q: &str, count: usize, d: QueueDirection) -> Vec<String> {
        match self.queues.get(q) {
            None => vec![],
            Some(q) => match d {
                QueueDirection::Front => q.iter().take(count).cloned().collect(),
                QueueDirection::Back => q.iter().rev().take(count).cloned().collect(),
            },
        }
    }
    pub fn count(&self, q: &str) -> usize {
        self.queues.get(q).map_or(0, |q| q.len())
    }
    pub fn hset(&mut self, h: &str, k: &str, v: String) {
        self.hashes.entry(h.into()).or_default().insert(k.into(), v);
    }
    pub fn hget(&self, h: &str, k: &str) -> Option<String> {
        self.hashes.get(h).and_then(|h| h.get(k).cloned())
    }
}

/// Reference backend.
#[derive(Default, Clone)]
pub struct RefBackend(pub Arc<Mutex<Store>>);

impl Backend for RefBackend {
    fn queue_push(&self, q: &str, item: &str) -> Result<(), Error> {
        self.0.lock().unwrap().push(q, item);
        Ok(())
    }
    fn queue_move(&self, from: &str, to: &str, n: usize, f: QueueDirection, t: QueueDirection) -> Result<Vec<String>, Error> {
        Ok(self.0.lock().unwrap().mv(from, to, n, f, t))
    }
    fn queue_remove(&self, q: &str, item: &str) -> Result<(), Error> {
        self.0.lock().unwrap().remove(q, item);
        Ok(())
    }
    fn queue_get(&self, q: &str, n: usize, d: QueueDirection) -> Result<Vec<String>, Error> {
        Ok(self.0.lock().unwrap().get(q, n, d))
    }
    fn queue_count(&self, q: &str) -> Result<usize, Error> {
        Ok(self.0.lock().unwrap().count(q))
    }
    fn storage_upsert(&self, h: &str, k: &str, v: String) -> Result<(), Error> {
        self.0.lock().unwrap().hset(h, k, v);
        Ok(())
    }
    fn storage_get(&self, h: &str, k: &str) -> Result<Option<String>, Error> {
        Ok(self.0.lock().unwrap().hget(h, k))
    }
}

pub static OPS: AtomicU64 = AtomicU64::new(0);
static SAME_T: AtomicU64 = AtomicU64::new(0);
static SAME_N: AtomicU64 = AtomicU64::new(0);
/// More backend operations than this within one virtual instant is a livelock.
pub const LIVELOCK: u64 = 400_000;

/// What to do at which backend operation.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct FaultPlan {
    /// operation indices (from arming) that fail without effect: [start, start+len)
    pub fail: Vec<(u64, u64)>,
    /// (n, m, len): the n-th client call finds operations m..m+len failing
    #[serde(default)]
    pub fail_call: Vec<(u64, u64, u64)>,
    /// die just before this operation
    pub crash_at: Option<u64>,
    /// die just before the m-th operation of the n-th client call
    #[serde(default)]
    pub crash_call: Option<(u64, u64)>,
    /// never fail a removal that the engine performs on its own, outside a client call: that is
    /// how a slot is released when a run ends (known finding F-SLOT, see KNOWN_FINDINGS.md)
    #[serde(default)]
    pub spare_slot_release: bool,
    /// the failures are those of the Redis server
    #[serde(default)]
    pub server: bool,
    /// put the stored statuses into the log
    #[serde(default)]
    pub log_stores: bool,
    /// put every use of a queue into the log
    #[serde(default)]
    pub log_looks: bool,
}

pub struct Traced<B> {
    pub inner: B,
    pub plan: FaultPlan,
    pub on_crash: Option<Box<dyn Fn() + Send + Sync>>,
}
/// Fault plans count operations only while armed.
pub static ARMED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// a client call is in progress
pub static IN_CALL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static ARMED_OPS: AtomicU64 = AtomicU64::new(0);
/// number of the client call in progress, and backend operations since it began
pub static CALL_NO: AtomicU64 = AtomicU64::new(0);
pub static CALL_OPS: AtomicU64 = AtomicU64::new(0);

fn stored_status(v: &str) -> Option<aj::job::JobStatus> {
    let v: serde_json::Value = serde_json::from_str(v).ok()?;
    serde_json::from_value::<aj::JobContext>(v.get("context")?.clone()).ok().map(|c| c.job_status)
}

fn injected() -> Error {
    Error::Redis(redis::RedisError::from((redis::ErrorKind::IoError, "injected backend failure")))
}

impl<B: Backend> Traced<B> {
    fn step(&self, name: &str, q: &str, arg: &str) -> Result<(), Error> {
        OPS.fetch_add(1, SeqCst);
        if self.plan.log_looks && name.starts_with("queue_") {
            crate::jobs::log(crate::jobs::Ev::Look { key: q.into() });
        }
        let t = sim::now();
        if SAME_T.swap(t, SeqCst) == t {
            if SAME_N.fetch_add(1, SeqCst) > LIVELOCK {
                crate::engine::abort_case("livelock: too many backend operations in one instant");
            }
        } else {
            SAME_N.store(0, SeqCst);
        }
        if !ARMED.load(SeqCst) {
            return Ok(());
        }
        let i = ARMED_OPS.fetch_add(1, SeqCst);
        let in_call = IN_CALL.load(SeqCst);
        let m = CALL_OPS.fetch_add(1, SeqCst);
        let hit = in_call && self.plan.crash_call == Some((CALL_NO.load(SeqCst), m));
        if self.plan.crash_at == Some(i) || hit {
            if let Some(f) = &self.on_crash {
                f();
            }
        }
        if self.plan.spare_slot_release && name == "queue_remove" && !IN_CALL.load(SeqCst) {
            return Ok(());
        }
        let call = CALL_NO.load(SeqCst);
        if self.plan.fail.iter().any(|(s, n)| i >= *s && i < s.saturating_add(*n))
            || in_call && self.plan.fail_call.iter().any(|(c, s, n)| *c == call && m >= *s && m < s.saturating_add(*n))
        {
            crate::jobs::log(crate::jobs::Ev::Fault { op: format!("{name}({q},{arg})") });
            if self.plan.server {
                crate::fakeredis::fail_in(0, i);
                return Ok(());
            }
            return Err(injected());
        }
        Ok(())
    }
    fn done<T>(&self, r: Result<T, Error>) -> Result<T, Error> {
        if self.plan.server {
            crate::fakeredis::fail_off();
        }
        r
    }
}

impl<B: Backend> Backend for Traced<B> {
    fn queue_push(&self, q: &str, item: &str) -> Result<(), Error> {
        self.step("queue_push", q, item)?;
        self.done(self.inner.queue_push(q, item))
    }
    fn queue_move(&self, from: &str, to: &str, n: usize, f: QueueDirection, t: QueueDirection) -> Result<Vec<String>, Error> {
        self.step("queue_move", from, to)?;
        self.done(self.inner.queue_move(from, to, n, f, t))
    }
    fn queue_remove(&self, q: &str, item: &str) -> Result<(), Error> {
        self.step("queue_remove", q, item)?;
        self.done(self.inner.queue_remove(q, item))
    }
    fn queue_get(&self, q: &str, n: usize, d: QueueDirection) -> Result<Vec<String>, Error> {
        self.step("queue_get", q, "")?;
        self.done(self.inner.queue_get(q, n, d))
    }
    fn queue_count(&self, q: &str) -> Result<usize, Error> {
        self.step("queue_count", q, "")?;
        self.done(self.inner.queue_count(q))
    }
    fn storage_upsert(&self, h: &str, k: &str, v: String) -> Result<(), Error> {
        self.step("storage_upsert", k, "")?;
        let status = if self.plan.log_stores { stored_status(&v) } else { None };
        let r = self.done(self.inner.storage_upsert(h, k, v));
        if let (Ok(()), Some(status)) = (&r, status) {
            crate::jobs::log(crate::jobs::Ev::Stored { id: k.into(), kind: crate::jobs::plug_of(status) });
        }
        r
    }
    fn storage_get(&self, h: &str, k: &str) -> Result<Option<String>, Error> {
        self.step("storage_get", k, "")?;
        self.done(self.inner.storage_get(h, k))
    }
}
