//! The oracle: a sequential reference model of the engine, written from the property statements,
//! that reads the event log of a case and reports every way the observed history differs.
use std::collections::{BTreeMap, HashMap};

use crate::engine::*;
use crate::jobs::*;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Viol {
    pub props: Vec<String>,
    pub kind: String,
    pub msg: String,
    pub t: u64,
}

#[derive(Default, Debug)]
pub struct Report {
    pub viols: Vec<Viol>,
    pub stats: BTreeMap<&'static str, u64>,
}

const SCHED: u32 = 1;
const CRON: u32 = 2;
const RETRY: u32 = 4;
const CANCEL: u32 = 8;
const UPD: u32 = 16;
const MRETRY: u32 = 32;
const RESUB: u32 = 64;
const PANIC: u32 = 128;

fn feat_props(f: u32) -> Vec<&'static str> {
    let mut v = vec![];
    for (b, p) in [
        (SCHED, "C03"),
        (CRON, "C04"),
        (RETRY, "C05"),
        (CANCEL, "C06"),
        (UPD, "C07"),
        (MRETRY, "C08"),
        (RESUB, "C02"),
        (PANIC, "C17"),
    ] {
        if f & b != 0 {
            v.push(p);
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Stage {
    Pre,
    Start,
    End,
}

#[derive(Clone, Debug)]
struct Exec {
    stage: Stage,
    fail: bool,
    rc: usize,
    p_next: Payload,
    t_end: u64,
}

type Ms = Vec<Option<i64>>;

#[derive(Clone, Debug)]
struct J {
    st: PlugKind,
    jt: JtM,
    retry: Option<RetryM>,
    p: Payload,
    p_alt: Option<Payload>,
    rc: (usize, usize),
    created: Ms,
    enq: Ms,
    run: Ms,
    complete: Ms,
    cancel: Ms,
    queued_at: u64,
    seq: u64,
    fifo: bool,
    exec: Option<Exec>,
    feat: u32,
    /// the model no longer knows this job's state (a violation was reported)
    dirty: bool,
    /// context fields not pinned down (data overridden on a done job)
    loose: bool,
    /// waiting because of an automatic retry
    retrying: bool,
    stalled: bool,
    /// instant of the last step of a run
    last_t: u64,
    /// a submission of it was in progress when the process died
    limbo: bool,
    /// a manual retry (1) or cancel (2) of it was in progress when the process died
    half: u8,
    /// it may have been in the middle of being started when the process died
    maybe: bool,
    /// starts and operations since the crash
    post: (usize, usize),
}

#[derive(Clone, Debug)]
struct Q {
    tick: u64,
    max: usize,
    running: usize,
    cap_since: u64,
    grace: u64,
    /// this instant, jobs executing when it began, starts in it
    inst: (u64, usize, usize),
    /// slots that jobs cut off by a crash may still occupy (known finding F-CRASH-SLOT)
    leak: usize,
}

impl Q {
    fn touch(&mut self, t: u64) {
        if self.inst.0 != t {
            self.inst = (t, self.running, 0);
        }
    }
}

pub struct Monitor<'a> {
    case: &'a Case,
    jobs: BTreeMap<(usize, String), J>,
    qs: HashMap<usize, Q>,
    calls: HashMap<usize, (OpRec, Expect)>,
    seq: u64,
    cur_t: u64,
    /// key, and submission number if it was due when submitted
    started_now: Vec<((usize, String), Option<u64>)>,
    /// submitted together with others
    unordered: std::collections::HashSet<(usize, String)>,
    /// handed over without waiting at this instant
    just_now: Vec<(u64, usize, String)>,
    /// types with a run that ended at this instant
    ended_now: std::collections::HashSet<usize>,
    nplug: usize,
    plug_exp: Vec<(usize, u64, String, PlugKind)>,
    any_panic: bool,
    /// when the process died, and how many jobs each type could have been starting then
    crashed: Option<u64>,
    crash_cap: HashMap<usize, usize>,
    ambiguous: std::collections::HashSet<usize>,
    pub rep: Report,
}

#[derive(Clone, Debug)]
enum Expect {
    Ok,
    Id(String),
    Err,
    Bool(bool),
    AnyBool,
    Look,
}

const MSLOP: u64 = 10_000_000;

impl<'a> Monitor<'a> {
    fn unix_ns(&self, t: u64) -> i64 {
        self.case.epoch_us * 1000 + t as i64
    }
    fn ms(&self, t: u64) -> i64 {
        self.unix_ns(t).div_euclid(1_000_000)
    }
    fn stat(&mut self, k: &'static str) {
        *self.rep.stats.entry(k).or_insert(0) += 1;
    }
    fn viol(&mut self, props: &[&str], kind: &str, msg: String) {
        if self.rep.viols.len() < 12 {
            let mut props: Vec<String> = props.iter().map(|s| s.to_string()).collect();
            if self.any_panic {
                props.push("C17".into());
            }
            if self.crashed.is_some() && kind != "order" {
                props.push("C15".into());
            }
            props.sort();
            props.dedup();
            self.rep.viols.push(Viol { props, kind: kind.into(), msg, t: self.cur_t });
        }
    }
    fn vjob(&mut self, key: &(usize, String), base: &[&str], kind: &str, msg: String) {
        let feat = self.jobs.get(key).map(|j| j.feat).unwrap_or(0);
        let mut p: Vec<&str> = base.to_vec();
        p.extend(feat_props(feat));
        let m = format!("type {} id {:?}: {msg}", key.0, short(&key.1));
        self.viol(&p, kind, m);
    }

    /// when the job may start, in log time; None = never
    fn due_t(&self, j: &J) -> Option<i128> {
        let us = match &j.jt {
            JtM::Normal => return Some(j.queued_at as i128),
            JtM::At(us) => *us,
            JtM::Cron { slot, n, max, end, .. } => {
                if max.is_some_and(|m| m < *n) || end.is_some_and(|e| e < *slot) {
                    return None;
                }
                *slot
            }
        };
        Some(us as i128 * 1000 - self.case.epoch_us as i128 * 1000)
    }

    fn advance(&mut self, t: u64) {
        if t > self.cur_t {
            self.end_of_instant();
            self.cur_t = t;
        }
        self.check_stall(t);
    }

    fn end_of_instant(&mut self) {
        // submission order among jobs that were due when submitted
        let started = std::mem::take(&mut self.started_now);
        // Those of one tick are begun in that order too. A run that ends meanwhile makes room in
        // the actor's task list and may reorder the tasks behind it.
        let ended = std::mem::take(&mut self.ended_now);
        let mut last: HashMap<usize, (u64, String)> = HashMap::new();
        for (key, seq) in &started {
            let Some(seq) = seq else { continue };
            if ended.contains(&key.0) || self.unordered.contains(key) {
                continue;
            }
            if self.jobs.get(key).is_none_or(|j| j.dirty) {
                continue;
            }
            let l = last.get(&key.0).cloned();
            if let Some((s, id)) = &l {
                *self.rep.stats.entry("fifo_same_instant").or_insert(0) += 1;
                if seq < s {
                    self.viol(
                        &["C12"],
                        "order",
                        format!("jobs started at one instant: {:?} after {:?}, which was submitted later", short(&key.1), short(id)),
                    );
                }
            }
            if l.is_none_or(|(s, _)| s < *seq) {
                last.insert(key.0, (*seq, key.1.clone()));
            }
        }
        for (key, _) in &started {
            let Some(j) = self.jobs.get(key) else { continue };
            if !j.fifo || j.dirty || self.unordered.contains(key) {
                continue;
            }
            let seq = j.seq;
            let mut pairs = 0;
            let mut bad = None;
            for (k, i) in &self.jobs {
                let (ty, id) = k;
                if *ty == key.0 && i.st == PlugKind::Queued && i.fifo && !i.dirty && i.queued_at < self.cur_t {
                    pairs += 1;
                    if i.seq < seq && !self.unordered.contains(k) {
                        bad = Some((id.clone(), i.feat));
                    }
                }
            }
            *self.rep.stats.entry("fifo_pairs").or_insert(0) += pairs;
            if let Some((id, feat)) = bad {
                let mut props = vec!["C12"];
                if feat & UPD != 0 {
                    props.push("C07");
                }
                self.viol(
                    &props,
                    "order",
                    format!("job {:?} was started while {:?}, due and submitted earlier, still waits", short(&key.1), short(&id)),
                );
            }
        }
        // steps of a run
        let t = self.cur_t;
        let keys: Vec<_> = self
            .jobs
            .iter()
            .filter(|(_, j)| !j.dirty && j.exec.as_ref().is_some_and(|e| e.stage == Stage::End && e.t_end <= t))
            .map(|(k, _)| k.clone())
            .collect();
        for k in keys {
            let custom = k.0 == 2 && self.jobs[&k].retry.is_some();
            self.vjob(
                &k,
                if custom { &["C22", "C05"] } else { &["C22"] },
                "steps",
                "execute ended but post_execute (or the retry decision) was not reached".into(),
            );
            self.release(&k);
            self.jobs.get_mut(&k).unwrap().dirty = true;
        }
        let keys: Vec<_> = self
            .jobs
            .iter()
            .filter(|(_, j)| !j.dirty && j.exec.as_ref().is_some_and(|e| e.stage == Stage::Pre))
            .map(|(k, _)| k.clone())
            .collect();
        for k in keys {
            self.vjob(&k, &["C22"], "steps", "pre_execute ran but execute did not start".into());
            self.release(&k);
            self.jobs.get_mut(&k).unwrap().dirty = true;
        }
    }

    fn check_stall(&mut self, t: u64) {
        let mut hits = vec![];
        for ((ty, id), j) in &self.jobs {
            if j.st != PlugKind::Queued || j.dirty || j.stalled {
                continue;
            }
            let Some(q) = self.qs.get(ty) else { continue };
            if q.running + q.leak >= q.max {
                continue;
            }
            let Some(due) = self.due_t(j) else { continue };
            let base = (j.queued_at as i128).max(due).max(q.cap_since as i128).max(q.grace as i128);
            let deadline = base + 2 * q.tick as i128 + MSLOP as i128;
            if t as i128 <= deadline {
                continue;
            }
            if let JtM::Cron { end: Some(e), .. } = &j.jt {
                // it may legitimately have missed its end time
                let e = *e as i128 * 1000 - self.case.epoch_us as i128 * 1000;
                if deadline >= e {
                    continue;
                }
            }
            hits.push(((*ty, id.clone()), (t as i128 - base) / 1_000_000));
        }
        for (k, late) in hits {
            let j = self.jobs.get_mut(&k).unwrap();
            j.stalled = true;
            let mut props = vec!["C01", "C09"];
            if j.fifo {
                props.push("C12");
            }
            if j.retrying {
                props.push("C05");
            }
            let jt = j.jt.clone();
            self.vjob(&k, &props, "stall", format!("due with free capacity but not started for {late} ms ({jt:?})"));
        }
    }

    fn imm(&self, jt: &JtM, t: u64) -> bool {
        match jt {
            JtM::Normal => true,
            JtM::At(us) => (*us as i128) * 1000 < self.unix_ns(t) as i128,
            JtM::Cron { .. } => false,
        }
    }
    fn jt_feat(jt: &JtM) -> u32 {
        match jt {
            JtM::Normal => 0,
            JtM::At(_) => SCHED,
            JtM::Cron { .. } => CRON,
        }
    }
    fn plug(&mut self, id: &str, k: PlugKind) {
        for p in 0..self.nplug {
            self.plug_exp.push((p, self.cur_t, id.to_string(), k));
        }
    }

    fn new_job(&mut self, t: u64, jt: JtM, retry: Option<RetryM>, p: Payload, rc: usize, old_feat: u32) -> J {
        self.seq += 1;
        let ms = self.ms(t);
        J {
            st: PlugKind::Queued,
            feat: old_feat | Self::jt_feat(&jt) | if retry.is_some() { RETRY } else { 0 },
            fifo: self.imm(&jt, t),
            jt,
            retry,
            p,
            p_alt: None,
            rc: (rc, rc),
            created: vec![Some(ms)],
            enq: vec![Some(ms)],
            run: vec![None],
            complete: vec![None],
            cancel: vec![None],
            queued_at: t,
            seq: self.seq,
            exec: None,
            dirty: false,
            loose: false,
            retrying: false,
            stalled: false,
            last_t: u64::MAX,
            limbo: false,
            half: 0,
            maybe: false,
            post: (0, 0),
        }
    }

    fn requeue(&mut self, key: &(usize, String), t: u64, submission: bool) {
        self.seq += 1;
        let seq = self.seq;
        let ms = self.ms(t);
        let imm = {
            let jt = self.jobs[key].jt.clone();
            submission && self.imm(&jt, t)
        };
        let j = self.jobs.get_mut(key).unwrap();
        j.st = PlugKind::Queued;
        j.enq = vec![Some(ms)];
        j.queued_at = t;
        j.seq = seq;
        j.fifo = imm;
        j.stalled = false;
        self.plug(&key.1, PlugKind::Queued);
    }

    fn apply(&mut self, t: u64, op: &OpRec) -> Expect {
        match op {
            OpRec::Submit { ty, id, how, jt, retry, p } => {
                if self.crashed.is_some() && !self.qs.contains_key(ty) {
                    // the first use of a type starts its queue, which may start what is due before
                    // it handles this submission
                    let key = (*ty, id.clone());
                    let due = self.jobs.get(&key).and_then(|j| self.due_t(j));
                    if let Some(j) = self.jobs.get_mut(&key) {
                        if j.limbo && j.feat & RESUB != 0 || j.st == PlugKind::Queued && !j.limbo && due.is_some_and(|d| d <= t as i128) {
                            j.dirty = true;
                            j.limbo = false;
                        }
                    }
                }
                self.qs.entry(*ty).or_insert(Q {
                    tick: DEFAULT_TICK_MS * 1_000_000,
                    max: DEFAULT_MAX,
                    running: 0,
                    cap_since: t,
                    grace: 0,
                    inst: (u64::MAX, 0, 0),
                    leak: self.crash_cap.get(ty).copied().unwrap_or(0),
                });
                let key = (*ty, id.clone());
                let (re_run, over) = match how {
                    How::Cfg(r, o) => (*r, *o),
                    _ => (true, true),
                };
                let exp = match how {
                    How::JustRun => Expect::Ok,
                    _ => Expect::Id(id.clone()),
                };
                if self.crashed.is_some() {
                    if let Some(j) = self.jobs.get(&key) {
                        if j.limbo && j.post == (0, 0) && re_run && over && *how != How::JustRun {
                            // repeated by the client: from here on an ordinary waiting job
                            let feat = j.feat;
                            let mut n = self.new_job(t, jt.clone(), retry.clone(), p.clone(), 0, feat | RESUB);
                            n.fifo = false;
                            n.loose = true;
                            n.post = (0, 1);
                            self.jobs.insert(key, n);
                            self.stat("crash_resubmitted");
                            return exp;
                        }
                    }
                }
                let st = self.jobs.get(&key).map(|j| (j.st, j.feat, j.dirty));
                match st {
                    None => {
                        let j = self.new_job(t, jt.clone(), retry.clone(), p.clone(), 0, 0);
                        self.jobs.insert(key, j);
                        self.plug(id, PlugKind::Queued);
                        self.stat("submit_new");
                    }
                    Some((PlugKind::Queued, feat, dirty)) => {
                        self.stat("submit_waiting");
                        self.jobs.get_mut(&key).unwrap().feat |= RESUB;
                        if over {
                            let old = self.jobs[&key].clone();
                            let mut j = self.new_job(t, jt.clone(), retry.clone(), p.clone(), 0, feat | RESUB);
                            j.seq = old.seq;
                            j.fifo = j.fifo && old.fifo;
                            j.enq = vec![None, Some(self.ms(t))];
                            j.enq.extend(old.enq.clone());
                            j.dirty = dirty;
                            // eligibility counts from the replacement
                            self.jobs.insert(key, j);
                        }
                    }
                    Some((PlugKind::Running, _, _)) => {
                        self.stat("submit_running");
                        self.jobs.get_mut(&key).unwrap().feat |= RESUB;
                    }
                    Some((_, feat, dirty)) => {
                        self.stat("submit_done");
                        if re_run {
                            let mut j = self.new_job(t, jt.clone(), retry.clone(), p.clone(), 0, feat | RESUB);
                            j.dirty = dirty;
                            self.jobs.insert(key, j);
                            self.plug(id, PlugKind::Queued);
                        } else if over {
                            // the stored job is replaced, only its status stays
                            let old = self.jobs[&key].clone();
                            let mut j = self.new_job(t, jt.clone(), retry.clone(), p.clone(), 0, feat | RESUB);
                            j.dirty = dirty;
                            j.st = old.st;
                            j.loose = true;
                            j.rc = (0, old.rc.1);
                            self.jobs.insert(key, j);
                        }
                    }
                }
                exp
            }
            OpRec::Cancel { ty, id } => {
                if !self.qs.contains_key(ty) {
                    return Expect::Err;
                }
                let ms = self.ms(t);
                let key = (*ty, id.clone());
                let Some(j) = self.jobs.get_mut(&key) else {
                    self.stat("cancel_unknown");
                    return Expect::Ok;
                };
                j.feat |= CANCEL;
                if j.half == 2 && j.post == (0, 0) {
                    // repeated by the client, not started before
                    j.half = 0;
                    j.dirty = false;
                    j.loose = true;
                    j.st = PlugKind::Canceled;
                    j.cancel = vec![];
                    self.stat("crash_recancelled");
                    return Expect::Ok;
                }
                match j.st {
                    PlugKind::Queued => {
                        j.st = PlugKind::Canceled;
                        j.cancel = vec![Some(ms)];
                        let between = j.retrying;
                        let sched = j.jt != JtM::Normal;
                        self.plug(id, PlugKind::Canceled);
                        self.stat("cancel_waiting");
                        if between {
                            self.stat("cancel_between_retries");
                        } else if sched {
                            self.stat("cancel_scheduled");
                        }
                    }
                    PlugKind::Running => self.stat("cancel_running"),
                    _ => self.stat("cancel_done"),
                }
                Expect::Ok
            }
            OpRec::Update { ty, id, p, ctx } => {
                let key = (*ty, id.clone());
                if !self.qs.contains_key(ty) || !self.jobs.contains_key(&key) {
                    self.stat("update_unknown");
                    return Expect::Ok;
                }
                self.jobs.get_mut(&key).unwrap().feat |= UPD;
                let j = self.jobs[&key].clone();
                match j.st {
                    PlugKind::Running => self.stat("update_running"),
                    st => {
                        let waiting = st == PlugKind::Queued;
                        self.stat(if waiting { "update_waiting" } else { "update_done" });
                        match ctx {
                            None => {
                                let j = self.jobs.get_mut(&key).unwrap();
                                j.p = p.clone();
                                j.p_alt = None;
                                if !waiting {
                                    self.requeue(&key, t, true);
                                }
                            }
                            Some((jt, retry, rc)) => {
                                self.stat("update_context");
                                let mut n = self.new_job(t, jt.clone(), retry.clone(), p.clone(), *rc, j.feat);
                                n.dirty = j.dirty;
                                if waiting {
                                    n.seq = j.seq;
                                    n.fifo = n.fifo && j.fifo;
                                    n.enq = vec![None, Some(self.ms(t))];
                                    n.enq.extend(j.enq.clone());
                                } else {
                                    self.plug(id, PlugKind::Queued);
                                }
                                self.jobs.insert(key, n);
                            }
                        }
                    }
                }
                Expect::Ok
            }
            OpRec::Retry { ty, id } => {
                if !self.qs.contains_key(ty) {
                    return Expect::Err;
                }
                let key = (*ty, id.clone());
                let Some(j) = self.jobs.get_mut(&key) else {
                    self.stat("mretry_unknown");
                    return Expect::Bool(false);
                };
                j.feat |= MRETRY;
                if j.half == 1 && j.post == (0, 0) {
                    // repeated by the client: one run, whichever of the two calls asked for it
                    j.half = 0;
                    j.dirty = false;
                    j.loose = true;
                    j.fifo = false;
                    j.enq = vec![];
                    j.queued_at = t;
                    self.stat("crash_reretried");
                    return Expect::AnyBool;
                }
                match j.st {
                    PlugKind::Queued => {
                        self.stat("mretry_waiting");
                        Expect::Bool(false)
                    }
                    PlugKind::Running => {
                        self.stat("mretry_running");
                        Expect::Bool(false)
                    }
                    st => {
                        j.retrying = false;
                        self.requeue(&key, t, true);
                        self.stat(match st {
                            PlugKind::Finished => "mretry_finished",
                            PlugKind::Failed => "mretry_failed",
                            _ => "mretry_canceled",
                        });
                        Expect::Bool(true)
                    }
                }
            }
            OpRec::Get { .. } => Expect::Look,
            OpRec::Config { ty, tick_ms, max } => {
                let Some(q) = self.qs.get_mut(ty) else { return Expect::Err };
                let new_tick = *tick_ms * 1_000_000;
                q.grace = q.grace.max(t + q.tick);
                q.tick = new_tick;
                if q.running + q.leak >= q.max && q.running + q.leak < *max {
                    q.cap_since = t;
                }
                let lowered = q.running > *max;
                q.max = *max;
                self.stat("config");
                if lowered {
                    self.stat("limit_lowered_below_running");
                }
                Expect::Ok
            }
            OpRec::Plugin { delay_us, .. } => {
                self.nplug += (*delay_us != PANICKY) as usize;
                Expect::Ok
            }
        }
    }

    fn look(&mut self, t: u64, ty: usize, id: &str, got: &Option<Box<JobObs>>) {
        let key = (ty, id.to_string());
        let Some(j) = self.jobs.get(&key).cloned() else {
            if got.is_some() {
                self.viol(&["C10", "C21"], "get", format!("look-up of the unknown id {:?} of type {ty} returned a job", short(id)));
            }
            return;
        };
        if self.crashed.is_some() && j.dirty && (j.half != 0 || j.limbo) && j.post == (0, 0) {
            // a call for it was cut off by the crash and not repeated: it took effect or it did not
            if let (Some(o), Some(q)) = (got, self.qs.get(&ty)) {
                let free = q.running + q.leak < q.max;
                let since = (q.cap_since.max(q.grace)) as i128;
                let due = match &o.jt {
                    JtM::Normal => Some(0),
                    JtM::At(us) => Some((*us as i128 - self.case.epoch_us as i128) * 1000),
                    JtM::Cron { .. } => None,
                };
                if free && due.is_some_and(|d| d.max(since) + (2 * q.tick + MSLOP) as i128 <= t as i128) {
                    self.stat("crash_halfway_looked_at");
                    if o.status == PlugKind::Queued {
                        self.vjob(&key, &["C15"], "crash", "a call for it was cut off by the crash; it is reported as waiting and due, but it is not executed".into());
                    }
                }
            }
            return;
        }
        if j.dirty || !self.qs.contains_key(&ty) {
            return;
        }
        self.stat(match j.st {
            PlugKind::Queued => "get_waiting",
            PlugKind::Running => "get_running",
            PlugKind::Finished => "get_finished",
            PlugKind::Failed => "get_failed",
            _ => "get_canceled",
        });
        let Some(o) = got else {
            self.vjob(&key, &["C10"], "get", format!("look-up returned nothing, expected {:?}", j.st));
            self.jobs.get_mut(&key).unwrap().dirty = true;
            return;
        };
        let mut bad = vec![];
        let mut c22 = false;
        if o.id != id {
            bad.push(format!("id {:?}", short(&o.id)));
        }
        if o.status != j.st {
            bad.push(format!("status {:?}, expected {:?}", o.status, j.st));
        }
        if o.p != j.p && j.p_alt.as_ref() != Some(&o.p) {
            c22 = true;
            bad.push(format!("data {}, expected {}", sp(&o.p), sp(&j.p)));
        }
        if !j.loose {
            if o.jt != j.jt {
                bad.push(format!("schedule {:?}, expected {:?}", o.jt, j.jt));
            }
            let er = j.retry.as_ref().map(|r| {
                let s = r.max.is_none_or(|m| r.retried < m);
                let d = if !s {
                    None
                } else if r.exp {
                    Some((r.us as i128) << (r.retried + 1).min(60))
                } else {
                    Some(r.us as i128)
                };
                (s, d)
            });
            let or = o.retry.map(|(s, d)| (s, d.map(|x| x as i128)));
            let huge = er.is_some_and(|(_, d)| d.is_some_and(|d| d > 1 << 55));
            // a type with its own retry decision keeps its own count
            if !huge && ty != 2 && or != er {
                bad.push(format!("retry policy (permitted, next delay) {or:?}, expected {er:?}"));
            }
            let running = j.st == PlugKind::Running;
            let rc_ok = if running {
                let r = j.exec.as_ref().map(|e| e.rc).unwrap_or(j.rc.1);
                o.run_count >= j.rc.0 && o.run_count <= r.max(j.rc.1)
            } else {
                o.run_count >= j.rc.0 && o.run_count <= j.rc.1
            };
            if !rc_ok {
                c22 = true;
                bad.push(format!("run count {}, expected {:?}", o.run_count, j.rc));
            }
            for (name, got, exp) in [
                ("created_at", Some(o.created), &j.created),
                ("enqueue_at", o.enqueue, &j.enq),
                ("run_at", o.run, &j.run),
                ("complete_at", o.complete, &j.complete),
                ("cancel_at", o.cancel, &j.cancel),
            ] {
                if !exp.contains(&got) {
                    bad.push(format!("{name} {got:?}, expected one of {exp:?} (now {})", self.ms(t)));
                }
            }
        }
        if !bad.is_empty() {
            let mut base = vec!["C10"];
            if c22 {
                base.push("C22");
            }
            self.vjob(&key, &base, "get", format!("look-up while {:?} shows {}", j.st, bad.join("; ")));
            self.jobs.get_mut(&key).unwrap().dirty = true;
        }
    }

    /// The context handed to one step of a run: same run number in all its
    /// steps, and status Running.
    fn run_ctx(&mut self, key: &(usize, String), step: &str, rc: usize, running: bool, of_run: Option<usize>) {
        let Some(j) = self.jobs.get(key) else { return };
        if j.dirty {
            return;
        }
        let (lo, hi) = of_run.map_or((j.rc.0 + 1, j.rc.1 + 1), |n| (n, n));
        if rc < lo || rc > hi {
            self.vjob(key, &["C22"], "run-number", format!("{step} of run {lo} was told run number {rc}"));
        } else if !running {
            self.vjob(key, &["C22"], "ctx", format!("the context given to {step} does not say the job is running"));
        }
    }

    fn begin(&mut self, t: u64, key: &(usize, String)) -> bool {
        let Some(j) = self.jobs.get(key).cloned() else {
            let other = self.jobs.keys().any(|(ty, id)| *ty != key.0 && *id == key.1);
            let props: &[&str] = if other { &["C02", "C21"] } else { &["C02"] };
            self.viol(props, "exec", format!("type {} executed id {:?}, which was never submitted", key.0, short(&key.1)));
            return false;
        };
        if j.dirty {
            return false;
        }
        if j.exec.is_some() {
            self.vjob(key, &["C02", "C22"], "overlap", "a second execution started while one is in progress".into());
            self.jobs.get_mut(key).unwrap().dirty = true;
            self.release(key);
            return false;
        }
        if j.st != PlugKind::Queued {
            let mut props = vec!["C02"];
            if j.st == PlugKind::Canceled {
                props.push("C06");
            }
            self.vjob(key, &props, "exec", format!("executed although it is {:?} and nothing asked for another run", j.st));
            self.jobs.get_mut(key).unwrap().dirty = true;
            return false;
        }
        // not before it is due
        let now = self.unix_ns(t) as i128;
        match &j.jt {
            JtM::Normal => {}
            JtM::At(us) => {
                if now < *us as i128 * 1000 {
                    let props: &[&str] = if j.retrying { &["C05"] } else { &["C03"] };
                    self.vjob(key, props, "early", format!("started {} us before its instant", (*us as i128 * 1000 - now) / 1000));
                } else {
                    self.stat(if j.retrying { "auto_retries" } else { "scheduled_starts" });
                }
            }
            JtM::Cron { slot, n, max, end, .. } => {
                let p: &[&str] = if j.retrying { &["C04", "C05"] } else { &["C04"] };
                if now < *slot as i128 * 1000 {
                    self.vjob(key, p, "early", format!("cron run {n} started {} us before its slot", (*slot as i128 * 1000 - now) / 1000));
                } else if max.is_some_and(|m| *n > m) {
                    self.vjob(key, p, "cron-limit", format!("cron run {n} exceeds the maximum {max:?}"));
                } else if end.is_some_and(|e| now > e as i128 * 1000) {
                    self.vjob(key, p, "cron-end", format!("cron run {n} started after the end time"));
                } else {
                    self.stat(if j.retrying { "cron_retries" } else { "cron_runs" });
                }
            }
        }
        let q = self.qs.get_mut(&key.0).unwrap();
        q.touch(t);
        q.inst.2 += 1;
        if q.inst.1 + q.inst.2 + q.leak >= q.max {
            // everything that was free has been given out in this instant
            q.cap_since = t;
        }
        q.running += 1;
        let (r, m) = (q.running, q.max);
        if r > m {
            self.viol(&["C09"], "limit", format!("type {}: {r} jobs executing, limit {m}", key.0));
        }
        if r == m {
            self.stat("limit_reached");
        }
        if r > 1 {
            self.stat("parallel");
        }
        let ms = self.ms(t);
        let j = self.jobs.get_mut(key).unwrap();
        j.st = PlugKind::Running;
        j.run = vec![Some(ms)];
        j.retrying = false;
        j.exec = Some(Exec { stage: Stage::Pre, fail: false, rc: 0, p_next: j.p.clone(), t_end: 0 });
        let seq = if j.fifo { Some(j.seq) } else { None };
        self.started_now.push((key.clone(), seq));
        for p in 0..self.nplug {
            self.plug_exp.push((p, t, key.1.clone(), PlugKind::Before));
        }
        self.plug(&key.1, PlugKind::Running);
        self.stat("runs");
        true
    }

    fn release(&mut self, key: &(usize, String)) {
        let t = self.cur_t;
        if let Some(j) = self.jobs.get_mut(key) {
            if j.exec.take().is_some() {
                let q = self.qs.get_mut(&key.0).unwrap();
                q.touch(t);
                if q.running + q.leak >= q.max && q.running + q.leak - 1 < q.max {
                    q.cap_since = t;
                }
                q.running -= 1;
            }
        }
    }

    /// after post_execute (and the custom retry decision, if any)
    fn settle(&mut self, t: u64, key: &(usize, String), custom: Option<Option<i64>>) {
        let unix_us = floor_us(self.unix_ns(t));
        let ms = self.ms(t);
        let Some(ex) = self.jobs.get(key).and_then(|j| j.exec.clone()) else { return };
        for p in 0..self.nplug {
            self.plug_exp.push((p, t, key.1.clone(), PlugKind::After));
        }
        self.release(key);
        let j = self.jobs.get_mut(key).unwrap();
        j.p = ex.p_next.clone();
        j.p_alt = None;
        // a run told the wrong number does not change how many there were
        j.rc = (j.rc.0 + 1, j.rc.1 + 1);
        if ex.rc >= j.rc.0 && ex.rc <= j.rc.1 {
            j.rc = (ex.rc, ex.rc);
        }
        let mut again: Option<i64> = None;
        match custom {
            Some(c) => again = c,
            None => {
                if ex.fail {
                    if let Some(r) = j.retry.as_mut() {
                        if r.max.is_none_or(|m| r.retried < m) {
                            r.retried += 1;
                            let d = if r.exp { (r.us as i128) << r.retried.min(60) } else { r.us as i128 };
                            again = Some((unix_us as i128 + d).min(i64::MAX as i128 / 4) as i64);
                        }
                    }
                }
            }
        }
        if let Some(due) = again {
            match &mut j.jt {
                // a repeating job never runs after its end time, not even as a retry
                JtM::Cron { end: Some(e), .. } if due > *e => again = None,
                JtM::Cron { slot, .. } => *slot = due,
                _ => j.jt = JtM::At(due),
            }
        }
        if again.is_some() {
            j.retrying = true;
            self.requeue(key, t, false);
            self.stat("retry_planned");
            return;
        }
        if let JtM::Cron { expr, slot, n, max, end } = &mut j.jt {
            if let Some(s) = next_slot_us(expr, unix_us) {
                if max.is_none_or(|m| *n < m) && end.is_none_or(|e| e >= s) {
                    *slot = s;
                    *n += 1;
                    self.requeue(key, t, false);
                    self.stat("cron_next");
                    return;
                }
            }
            self.stat("cron_ended");
        }
        let j = self.jobs.get_mut(key).unwrap();
        j.st = if ex.fail { PlugKind::Failed } else { PlugKind::Finished };
        j.complete = vec![Some(ms)];
        let st = j.st;
        let exhausted = ex.fail && j.retry.is_some();
        self.plug(&key.1, st);
        if exhausted {
            self.stat("retries_exhausted");
        }
        self.stat(if ex.fail { "failed" } else { "finished" });
    }

    fn event(&mut self, r: &Rec) {
        let t = r.t;
        self.advance(t);
        match &r.ev {
            Ev::Call { call, op } => {
                if self.ambiguous.contains(call) {
                    if let Some((ty, id)) = op_key(op) {
                        let key = (ty, id.to_string());
                        if self.jobs.contains_key(&key) {
                            self.stat("ambiguous");
                            self.release(&key);
                            let j = self.jobs.get_mut(&key).unwrap();
                            j.dirty = true;
                            j.limbo = false;
                            j.post.1 += 1;
                            if let Some(q) = self.qs.get_mut(&ty) {
                                q.grace = u64::MAX / 4;
                            }
                        }
                    }
                }
                // submissions that overlap have no order
                if let OpRec::Submit { ty, id, how, .. } = op {
                    let mut together: Vec<_> = self
                        .calls
                        .values()
                        .filter_map(|(o, _)| match o {
                            OpRec::Submit { ty: ty2, id: id2, .. } if ty2 == ty => Some((*ty2, id2.clone())),
                            _ => None,
                        })
                        .collect();
                    self.just_now.retain(|(t2, ..)| *t2 == t);
                    together.extend(self.just_now.iter().filter(|(_, ty2, _)| ty2 == ty).map(|(_, ty2, id2)| (*ty2, id2.clone())));
                    if *how == How::JustRun {
                        self.just_now.push((t, *ty, id.clone()));
                    }
                    if !together.is_empty() {
                        together.push((*ty, id.clone()));
                        self.unordered.extend(together);
                    }
                }
                let e = self.apply(t, op);
                if let Some((ty, id)) = op_key(op) {
                    if let Some(j) = self.jobs.get_mut(&(ty, id.to_string())) {
                        if !matches!(op, OpRec::Get { .. }) {
                            j.post.1 += 1;
                        }
                    }
                }
                self.calls.insert(*call, (op.clone(), e));
            }
            Ev::Ret { call, res } => {
                let Some((op, exp)) = self.calls.remove(call) else { return };
                let (base, key): (&[&str], Option<(usize, String)>) = match &op {
                    OpRec::Submit { ty, id, .. } => (&["C01", "C02", "C18"], Some((*ty, id.clone()))),
                    OpRec::Cancel { ty, id } => (&["C06"], Some((*ty, id.clone()))),
                    OpRec::Update { ty, id, .. } => (&["C07"], Some((*ty, id.clone()))),
                    OpRec::Retry { ty, id } => (&["C08"], Some((*ty, id.clone()))),
                    OpRec::Get { ty, id } => (&["C10"], Some((*ty, id.clone()))),
                    OpRec::Config { .. } => (&["C09"], None),
                    OpRec::Plugin { .. } => (&["C11"], None),
                };
                if let (Expect::Look, Res::Job(o)) = (&exp, res) {
                    if let OpRec::Get { ty, id } = &op {
                        self.look(t, *ty, id, o);
                    }
                    return;
                }
                let ok = match (&exp, res) {
                    (Expect::Ok, Res::Ok) => true,
                    (Expect::Id(i), Res::Id(o)) => i == o,
                    (Expect::Err, Res::Err(_)) => true,
                    (Expect::Bool(a), Res::Bool(b)) => a == b,
                    (Expect::AnyBool, Res::Bool(_)) => true,
                    _ => false,
                };
                if !ok {
                    let hang = *res == Res::Hang || matches!(res, Res::Err(_)) && !matches!(exp, Expect::Err);
                    let mut props: Vec<&str> = base.to_vec();
                    if hang {
                        props.push("C01");
                        props.push("*");
                    }
                    let m = format!("{op:?} answered {res:?}, expected {exp:?}");
                    match &key {
                        Some(k) if !hang && (self.ambiguous.contains(call) || self.jobs.get(k).is_some_and(|j| j.dirty)) => {
                            if let Some(j) = self.jobs.get_mut(k) {
                                j.dirty = true;
                            }
                        }
                        Some(k) => {
                            self.vjob(k, &props, "result", m);
                            if let Some(j) = self.jobs.get_mut(k) {
                                j.dirty = true;
                            }
                        }
                        None => self.viol(&props, "result", m),
                    }
                }
            }
            Ev::Pre { ty, id, rc, running } => {
                let key = (*ty, id.clone());
                if let Some(j) = self.jobs.get_mut(&key) {
                    j.last_t = t;
                    j.post.0 += 1;
                }
                if self.begin(t, &key) {
                    self.run_ctx(&key, "pre_execute", *rc, *running, None);
                }
            }
            Ev::Start { ty, id, rc, running, p } => {
                let key = (*ty, id.clone());
                let has = self.jobs.get(&key).is_some_and(|j| !j.dirty && j.exec.as_ref().is_some_and(|e| e.stage == Stage::Pre));
                if !has {
                    let dirty = self.jobs.get(&key).is_some_and(|j| j.dirty);
                    if dirty {
                        return;
                    }
                    let known = self.jobs.get(&key).is_some_and(|j| j.st == PlugKind::Queued && j.exec.is_none());
                    if known {
                        self.vjob(&key, &["C22"], "steps", "execute started without pre_execute".into());
                    }
                    if !self.begin(t, &key) {
                        return;
                    }
                }
                let j = self.jobs[&key].clone();
                if *rc < j.rc.0 + 1 || *rc > j.rc.1 + 1 {
                    self.vjob(&key, &["C22"], "run-number", format!("run numbered {rc}, expected {}", j.rc.0 + 1));
                }
                if !*running {
                    self.vjob(&key, &["C22", "C10"], "ctx", "the context of the run does not say it is running".into());
                }
                if *p != j.p && j.p_alt.as_ref() != Some(p) {
                    let mut props = vec!["C22"];
                    if self.case.clients.iter().flatten().any(|s| op_ty(&s.op).is_some_and(|x| x != *ty)) {
                        props.push("C21");
                    }
                    if self.rep.stats.get("runs").is_none_or(|n| *n == 0) || j.rc.0 == 0 {
                        props.push("C01");
                    }
                    self.vjob(&key, &props, "data", format!("run with data {}, expected {}", sp(p), sp(&j.p)));
                }
                let j = self.jobs.get_mut(&key).unwrap();
                if let Some(e) = j.exec.as_mut() {
                    e.stage = Stage::Start;
                    e.rc = *rc;
                    e.p_next = p.clone();
                    e.p_next.counter += 1;
                }
            }
            Ev::End { ty, id, fail, panic } => {
                self.ended_now.insert(*ty);
                let key = (*ty, id.clone());
                let Some(j) = self.jobs.get_mut(&key) else { return };
                j.last_t = t;
                if j.dirty {
                    return;
                }
                let Some(e) = j.exec.as_mut() else { return };
                if e.stage != Stage::Start {
                    self.vjob(&key, &["C22"], "steps", "execute ended twice".into());
                    return;
                }
                e.stage = Stage::End;
                e.fail = *fail;
                e.t_end = t;
                if *panic {
                    let (rc, pn) = (e.rc, e.p_next.clone());
                    self.any_panic = true;
                    self.stat("panics");
                    self.release(&key);
                    let ms = self.ms(t);
                    let j = self.jobs.get_mut(&key).unwrap();
                    j.feat |= PANIC;
                    j.st = PlugKind::Failed;
                    j.p_alt = Some(pn);
                    j.rc = (rc.saturating_sub(1), rc);
                    j.complete = vec![Some(ms)];
                    self.plug(id, PlugKind::Failed);
                }
            }
            Ev::Post { ty, id, rc, running } => {
                let key = (*ty, id.clone());
                let Some(j) = self.jobs.get(&key) else { return };
                if j.dirty {
                    return;
                }
                match &j.exec {
                    Some(e) if e.stage == Stage::End => {
                        let of_run = e.rc;
                        self.run_ctx(&key, "post_execute", *rc, *running, Some(of_run));
                        let j = &self.jobs[&key];
                        if *ty == 2 && j.retry.is_some() {
                            return; // its own retry decision follows
                        }
                        self.settle(t, &key, None);
                    }
                    _ => self.vjob(&key, &["C22"], "steps", "post_execute called out of order".into()),
                }
            }
            Ev::RetryAsk { ty, id, answer_us } => {
                let key = (*ty, id.clone());
                let Some(j) = self.jobs.get(&key) else { return };
                if j.dirty {
                    return;
                }
                if j.exec.as_ref().is_some_and(|e| e.stage == Stage::End) {
                    self.settle(t, &key, Some(*answer_us));
                } else {
                    self.vjob(&key, &["C05"], "retry-ask", "the retry decision was asked for out of order".into());
                }
            }
            Ev::Plug { .. } => {}
            Ev::Panic { msg } => {
                self.viol(&["*", "C01"], "panic", format!("engine panic or abort: {msg}"));
            }
            Ev::Crash => self.crash(t),
            Ev::Spoil { ty, id } => {
                self.stat("spoiled");
                self.jobs.remove(&(*ty, id.clone()));
            }
            Ev::Cut | Ev::Sweep | Ev::Calm | Ev::Started | Ev::Fault { .. } | Ev::Stored { .. } | Ev::Look { .. } => {}
        }
    }

    fn crash(&mut self, t: u64) {
        self.stat("crashes");
        let pending: Vec<(OpRec, Expect)> = self.calls.drain().map(|(_, x)| x).collect();
        let in_call = !pending.is_empty();
        if in_call {
            self.stat("crash_in_call");
        }
        let qs = std::mem::take(&mut self.qs);
        for (ty, q) in &qs {
            let before = if q.inst.0 == t { q.inst.1 } else { q.running };
            self.crash_cap.insert(*ty, q.max.max(before));
        }
        let keys: Vec<_> = self.jobs.keys().cloned().collect();
        let mut waiting = 0;
        let mut unsure: HashMap<usize, usize> = HashMap::new();
        for k in keys {
            let due = self.due_t(&self.jobs[&k]);
            let j = self.jobs.get_mut(&k).unwrap();
            j.post = (0, 0);
            if j.exec.is_some() {
                // executing when the process died: unspecified
                j.exec = None;
                j.dirty = true;
            } else if j.last_t == t {
                // its run was just being accounted for
                j.dirty = true;
            } else if j.st == PlugKind::Queued && !in_call && due.is_some_and(|d| d <= t as i128) {
                j.maybe = !j.dirty;
                j.dirty = true;
            } else if !j.dirty && j.st == PlugKind::Queued {
                waiting += 1;
            }
            if j.dirty {
                *unsure.entry(k.0).or_default() += 1;
            }
        }
        for (ty, cap) in self.crash_cap.iter_mut() {
            *cap = (*cap).min(unsure.get(ty).copied().unwrap_or(0));
        }
        *self.rep.stats.entry("crash_waiting").or_insert(0) += waiting;
        for (op, exp) in pending {
            let submit = matches!(op, OpRec::Submit { .. });
            if let Some((ty, id)) = op_key(&op) {
                if matches!(op, OpRec::Get { .. }) {
                    continue;
                }
                if let Some(j) = self.jobs.get_mut(&(ty, id.to_string())) {
                    j.limbo = submit && !j.dirty && j.last_t != t;
                    if !j.dirty && j.last_t != t {
                        j.half = match (&op, &exp) {
                            (OpRec::Retry { .. }, Expect::Bool(true)) => 1,
                            (OpRec::Cancel { .. }, _) if j.st == PlugKind::Canceled => 2,
                            _ => 0,
                        };
                    }
                    j.dirty = true;
                    if j.limbo {
                        self.stat("crash_unacknowledged");
                    }
                }
            }
        }
        self.started_now.clear();
        self.ended_now.clear();
        self.crashed = Some(t);
    }

    /// Jobs whose state at the crash is not known exactly.
    fn crash_rules(&mut self) {
        let mut lost: HashMap<usize, usize> = HashMap::new();
        let mut bad = vec![];
        for (k, j) in &self.jobs {
            if (!j.limbo && !j.maybe) || j.post.1 > 0 || j.feat & (RETRY | CRON) != 0 || k.0 == 2 {
                continue;
            }
            if j.post.0 > 1 {
                bad.push((k.clone(), format!("executed {} times after the crash, at most once was asked for", j.post.0)));
            }
            let long = self.qs.get(&k.0).is_some_and(|q| {
                q.running + q.leak < q.max && (q.cap_since.max(q.grace) + 2 * q.tick + MSLOP) < self.cur_t
            });
            if j.maybe && j.post.0 == 0 && long {
                *lost.entry(k.0).or_default() += 1;
            }
        }
        for (k, m) in bad {
            self.vjob(&k, &["C15"], "crash", m);
        }
        for (ty, n) in lost {
            let cap = self.crash_cap[&ty];
            if n > cap {
                self.viol(&["C15"], "crash", format!("type {ty}: {n} jobs that were due and waiting are lost, at most {cap} could have been in the middle of being started"));
            }
        }
    }

    fn finish(&mut self, log: &[Rec]) {
        if self.crashed.is_some() {
            self.crash_rules();
        }
        let pend: Vec<_> = self.calls.values().map(|(o, _)| o.clone()).collect();
        let aborted = log.iter().any(|r| matches!(&r.ev, Ev::Cut) || matches!(&r.ev, Ev::Panic { msg } if msg.starts_with("ABORT")));
        if !aborted {
            for op in pend {
                self.viol(&["*", "C01"], "hang", format!("{op:?} never returned"));
            }
        }
        let t = self.cur_t;
        self.end_of_instant();
        self.check_stall(t);
        // plugins: callbacks per plugin, job and instant
        type K = (usize, String);
        let mut exp: BTreeMap<K, BTreeMap<u64, Vec<PlugKind>>> = BTreeMap::new();
        let mut got: BTreeMap<K, BTreeMap<u64, Vec<PlugKind>>> = BTreeMap::new();
        for (p, t, id, k) in &self.plug_exp {
            exp.entry((*p, id.clone())).or_default().entry(*t).or_default().push(*k);
        }
        let mut n = 0;
        for r in log {
            if let Ev::Plug { p, kind, id } = &r.ev {
                n += 1;
                got.entry((*p, id.clone())).or_default().entry(r.t).or_default().push(*kind);
            }
        }
        *self.rep.stats.entry("plugin_calls").or_insert(0) += n;
        let dirty: Vec<String> = self.jobs.iter().filter(|(_, j)| j.dirty).map(|((_, i), _)| i.clone()).collect();
        let mut keys: Vec<K> = exp.keys().chain(got.keys()).cloned().collect();
        keys.sort();
        keys.dedup();
        for k in keys {
            if dirty.contains(&k.1) {
                continue;
            }
            let mut e = exp.remove(&k).unwrap_or_default();
            let mut g = got.remove(&k).unwrap_or_default();
            for v in e.values_mut().chain(g.values_mut()) {
                v.sort();
            }
            if log.iter().any(|r| matches!(r.ev, Ev::Cut)) {
                e.retain(|t, _| *t < self.cur_t);
                g.retain(|t, _| *t < self.cur_t);
            }
            // a run that panicked may or may not reach the after-run hook
            if self.any_panic {
                let panicked: Vec<u64> = log
                    .iter()
                    .filter(|r| matches!(&r.ev, Ev::End { id, panic: true, .. } if *id == k.1))
                    .map(|r| r.t)
                    .collect();
                for m in [&mut e, &mut g] {
                    for t in &panicked {
                        if let Some(v) = m.get_mut(t) {
                            v.retain(|x| *x != PlugKind::After);
                        }
                    }
                }
            }
            if e != g {
                let t = e.keys().chain(g.keys()).find(|t| e.get(t) != g.get(t)).cloned().unwrap_or(0);
                self.cur_t = t;
                self.viol(
                    &["C11"],
                    "plugin",
                    format!(
                        "plugin {} saw {:?} for job {:?} at {} ms, expected {:?}",
                        k.0,
                        g.get(&t).cloned().unwrap_or_default(),
                        short(&k.1),
                        t / 1_000_000,
                        e.get(&t).cloned().unwrap_or_default()
                    ),
                );
            }
        }
    }
}

fn op_key(op: &OpRec) -> Option<(usize, &str)> {
    match op {
        OpRec::Submit { ty, id, .. }
        | OpRec::Cancel { ty, id }
        | OpRec::Update { ty, id, .. }
        | OpRec::Retry { ty, id }
        | OpRec::Get { ty, id } => Some((*ty, id)),
        _ => None,
    }
}

/// Calls whose effect cannot be ordered against a step of the same job: the step falls between call
/// and return, or on the same instant before the return.
fn ambiguous_calls(log: &[Rec]) -> std::collections::HashSet<usize> {
    let mut out = std::collections::HashSet::new();
    let mut last: HashMap<(usize, &str), u64> = HashMap::new();
    let mut open: HashMap<usize, ((usize, &str), u64)> = HashMap::new();
    for r in log {
        match &r.ev {
            Ev::Call { call, op } => {
                if let Some(k) = op_key(op) {
                    open.insert(*call, (k, r.t));
                }
            }
            Ev::Ret { call, .. } => {
                if let Some((k, t0)) = open.remove(call) {
                    if last.get(&k).is_some_and(|t| *t >= t0) {
                        out.insert(*call);
                    }
                }
            }
            Ev::Pre { ty, id, .. } | Ev::Start { ty, id, .. } | Ev::End { ty, id, .. } | Ev::Post { ty, id, .. } | Ev::RetryAsk { ty, id, .. } => {
                last.insert((*ty, id), r.t);
            }
            _ => {}
        }
    }
    out
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 40 {
        format!("{}…({} chars)", s.chars().take(40).collect::<String>(), s.chars().count())
    } else {
        s.to_string()
    }
}
fn sp(p: &Payload) -> String {
    format!("(tag {} text {:?} counter {} runs {} custom {})", p.tag, short(&p.text), p.counter, p.runs.len(), p.custom.len())
}
pub fn op_ty(o: &Op) -> Option<usize> {
    match o {
        Op::Submit { ty, .. }
        | Op::Burst { ty, .. }
        | Op::FarBurst { ty, .. }
        | Op::Cancel { ty, .. }
        | Op::Update { ty, .. }
        | Op::Retry { ty, .. }
        | Op::Get { ty, .. }
        | Op::Spoil { ty, .. }
        | Op::Config { ty, .. } => Some(*ty),
        Op::Par(v) => v.first().and_then(op_ty),
        _ => None,
    }
}

/// Order of hooks and steps within each run, also valid when hooks take time.
pub fn plugin_cycles(case: &Case, log: &[Rec], rep: &mut Report) {
    // (a plugin whose hooks panic comes last)
    let nplug_max =
        log.iter().filter(|r| matches!(&r.ev, Ev::Call { op: OpRec::Plugin { delay_us, .. }, .. } if *delay_us != PANICKY)).count();
    if nplug_max == 0 {
        return;
    }
    // (before, begun, ended, after) counts per job; registered plugins at the time of begin
    #[derive(Default, Clone)]
    struct C {
        begun: usize,
        post: usize,
        before: Vec<usize>,
        after: Vec<usize>,
        panics: usize,
    }
    let mut m: BTreeMap<String, C> = BTreeMap::new();
    let mut reg: Vec<bool> = vec![false; nplug_max];
    let mut late: Vec<BTreeMap<String, (usize, usize)>> = vec![Default::default(); nplug_max];
    let mut open: BTreeMap<usize, usize> = BTreeMap::new();
    let mut bad = None;
    for r in log {
        match &r.ev {
            Ev::Call { call, op: OpRec::Plugin { p, .. } } if *p < nplug_max => {
                open.insert(*call, *p);
            }
            Ev::Ret { call, res: Res::Ok } => {
                if let Some(p) = open.remove(call) {
                    reg[p] = true;
                    // runs begun before registration are not this plugin's
                    for (id, c) in &m {
                        late[p].insert(id.clone(), (c.begun, c.post));
                    }
                }
            }
            Ev::Plug { p, kind, id } => {
                let c = m.entry(id.clone()).or_default();
                c.before.resize(nplug_max, 0);
                c.after.resize(nplug_max, 0);
                match kind {
                    PlugKind::Before => c.before[*p] += 1,
                    PlugKind::After => {
                        c.after[*p] += 1;
                        let l = late[*p].get(id).map_or(0, |x| x.1);
                        if c.after[*p] + l > c.post && c.panics == 0 && bad.is_none() {
                            bad = Some((r.t, format!("after-run hook of plugin {p} for {:?} before the run ended", short(id))));
                        }
                    }
                    _ => {}
                }
            }
            Ev::Pre { id, .. } => {
                let c = m.entry(id.clone()).or_default();
                c.before.resize(nplug_max, 0);
                c.after.resize(nplug_max, 0);
                c.begun += 1;
                for p in 0..nplug_max {
                    let l = late[p].get(id).map_or(0, |x| x.0);
                    if reg[p] && c.before[p] + l < c.begun && bad.is_none() {
                        bad = Some((r.t, format!("job {:?} starts before the before-run hook of plugin {p} completed", short(id))));
                    }
                }
            }
            Ev::End { id, panic: true, .. } => m.entry(id.clone()).or_default().panics += 1,
            Ev::Post { id, .. } => m.entry(id.clone()).or_default().post += 1,
            _ => {}
        }
    }
    let _ = case;
    if let Some((t, msg)) = bad {
        rep.viols.push(Viol { props: vec!["C11".into()], kind: "plugin-order".into(), msg, t });
    }
}

/// Cases with hooks that take time: counts per job only (the instants are shifted by the hooks).
fn check_delayed(case: &Case, log: &[Rec]) -> Report {
    let mut rep = Report::default();
    plugin_cycles(case, log, &mut rep);
    let np = case.plugins.len();
    let mut starts: BTreeMap<String, u64> = BTreeMap::new();
    let mut posts: BTreeMap<String, u64> = BTreeMap::new();
    let mut plug: BTreeMap<(usize, String, PlugKind), u64> = BTreeMap::new();
    let mut fails: BTreeMap<String, bool> = BTreeMap::new();
    let mut running: HashMap<usize, i64> = HashMap::new();
    for r in log {
        match &r.ev {
            Ev::Pre { id, ty, .. } => {
                *starts.entry(id.clone()).or_default() += 1;
                let n = running.entry(*ty).or_default();
                *n += 1;
                *rep.stats.entry("runs").or_insert(0) += 1;
            }
            Ev::End { id, fail, .. } => {
                fails.insert(id.clone(), *fail);
            }
            Ev::Post { id, ty, .. } => {
                *posts.entry(id.clone()).or_default() += 1;
                *running.entry(*ty).or_default() -= 1;
            }
            Ev::Plug { p, kind, id } => {
                *plug.entry((*p, id.clone(), *kind)).or_default() += 1;
                *rep.stats.entry("plugin_calls").or_insert(0) += 1;
            }
            Ev::Panic { msg } => rep.viols.push(Viol {
                props: vec!["*".into()],
                kind: "panic".into(),
                msg: format!("engine panic or abort: {msg}"),
                t: r.t,
            }),
            _ => {}
        }
    }
    if log.iter().any(|r| matches!(r.ev, Ev::Cut)) {
        return rep;
    }
    let mut ids: Vec<String> = starts.keys().cloned().collect();
    ids.extend(plug.keys().map(|k| k.1.clone()));
    ids.sort();
    ids.dedup();
    for id in ids {
        for p in 0..np {
            let s = starts.get(&id).copied().unwrap_or(0);
            let c = |k| plug.get(&(p, id.clone(), k)).copied().unwrap_or(0);
            let mut e = vec![];
            if c(PlugKind::Before) != s {
                e.push(format!("{} before-run calls for {s} runs", c(PlugKind::Before)));
            }
            if c(PlugKind::After) != posts.get(&id).copied().unwrap_or(0) {
                e.push(format!("{} after-run calls for {} ended runs", c(PlugKind::After), posts.get(&id).copied().unwrap_or(0)));
            }
            if c(PlugKind::Running) != s {
                e.push(format!("{} running reports for {s} runs", c(PlugKind::Running)));
            }
            let fin = c(PlugKind::Finished) + c(PlugKind::Failed);
            if c(PlugKind::Queued) != s || fin != 1 {
                // every job of these cases has ended: queued once per run, ended once
                e.push(format!("{} queued and {fin} final reports for {s} runs", c(PlugKind::Queued)));
            }
            let f = fails.get(&id).copied().unwrap_or(false);
            if fin == 1 && (c(PlugKind::Failed) == 1) != f {
                e.push("final report contradicts the outcome".into());
            }
            if !e.is_empty() {
                rep.viols.push(Viol {
                    props: vec!["C11".into()],
                    kind: "plugin".into(),
                    msg: format!("plugin {p}, job {:?}: {}", short(&id), e.join("; ")),
                    t: 0,
                });
            }
        }
    }
    rep
}

pub fn check(case: &Case, log: &[Rec]) -> Report {
    if case.plugins.iter().any(|d| *d > 0 && *d != PANICKY) {
        return check_delayed(case, log);
    }
    let mut m = Monitor {
        case,
        jobs: BTreeMap::new(),
        qs: HashMap::new(),
        calls: HashMap::new(),
        seq: 0,
        cur_t: 0,
        started_now: vec![],
        ended_now: Default::default(),
        unordered: Default::default(),
        just_now: vec![],
        nplug: 0,
        plug_exp: vec![],
        any_panic: false,
        crashed: None,
        crash_cap: HashMap::new(),
        ambiguous: ambiguous_calls(log),
        rep: Report::default(),
    };
    for r in log {
        m.event(r);
    }
    m.finish(log);
    let mut rep = m.rep;
    plugin_cycles(case, log, &mut rep);
    rep
}
