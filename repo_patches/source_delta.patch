From 2c32952510489a3900df3ddfbf5698c0fd42b355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:23 +0000
Subject: [PATCH 01/22] fix: call the after-run hook of plugins after a run,
 not the before-run hook again

---
 aj_core/src/plugin/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/plugin/mod.rs b/aj_core/src/plugin/mod.rs
index 710b33a..8231760 100644
--- a/aj_core/src/plugin/mod.rs
+++ b/aj_core/src/plugin/mod.rs
@@ -50,7 +50,7 @@ impl PluginCenter {
     {
         let msg: RunHook<M> = RunHook {
             job_id,
-            before: true,
+            before: false,
             phantom: PhantomData,
         };
         let _ = Self::from_registry().send(msg).await;
-- 
2.43.0


From 608bc9111888ff618f31ab5eee3e753187413c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:43 +0000
Subject: [PATCH 02/22] fix: concurrent first submissions of a job type share
 its queue instead of panicking in AJ

---
 aj_core/src/aj.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index fa47a65..79b0994 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -114,13 +114,15 @@ impl AJ {
     {
         let type_id = TypeId::of::<M>();
 
+        // Concurrent first jobs of a type all ask for its queue, they have to share it
+        if let Some(queue_addr) = get_work_queue_address::<M>() {
+            return queue_addr;
+        }
+
         let registry = &QUEUE_REGISTRY;
         if registry.registry_by_name.contains_key(queue_name) {
             panic!("You already register queue with name: {}", queue_name);
         }
-        if registry.registry.contains_key(&type_id) {
-            panic!("You already register queue with type: {:?}", type_id);
-        }
 
         // Start Queue in an arbiter thread
         let queue_addr = WorkQueue::<M>::start_with_name(queue_name.into(), self.backend.clone());
-- 
2.43.0


From 35d0b10c31611983f955b4711eac04d0b16f2f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:48 +0000
Subject: [PATCH 03/22] fix: starting AJ from several threads at once yields
 one engine

---
 aj_core/src/aj.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index 79b0994..c1cee12 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -47,11 +47,7 @@ where
 }
 
 pub fn get_aj_address() -> Option<Addr<AJ>> {
-    if let Ok(addr) = AJ_ADDR.try_read() {
-        addr.clone()
-    } else {
-        None
-    }
+    AJ_ADDR.read().unwrap_or_else(|e| e.into_inner()).clone()
 }
 
 pub struct AJ {
@@ -91,14 +87,17 @@ impl AJ {
     }
 
     fn register_addr(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
+        let mut aj_addr = AJ_ADDR.write().unwrap_or_else(|e| e.into_inner());
+        // Another thread can have started AJ in the meantime
+        if let Some(addr) = aj_addr.as_ref() {
+            return addr.clone();
+        }
+
         let arbiter: Arbiter = Arbiter::new();
         let addr = <Self as Actor>::start_in_arbiter(&arbiter.handle(), |_| Self {
             backend: Arc::new(backend),
         });
-
-        if let Ok(ref mut aj_addr) = AJ_ADDR.try_write() {
-            **aj_addr = Some(addr.clone());
-        }
+        *aj_addr = Some(addr.clone());
 
         addr
     }
-- 
2.43.0


From 69c5f5243d67609b2addea9f62021b814055a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:10 +0000
Subject: [PATCH 04/22] fix: a cron job ends after its last permitted run
 instead of staying queued or running forever

---
 aj_core/src/job/mod.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/aj_core/src/job/mod.rs b/aj_core/src/job/mod.rs
index aa2aae3..cad2c38 100644
--- a/aj_core/src/job/mod.rs
+++ b/aj_core/src/job/mod.rs
@@ -173,7 +173,6 @@ where
     }
 
     pub(crate) fn next_tick(&mut self) -> Option<Self> {
-        let now = get_now();
         match &self.context.job_type {
             JobType::Cron(cron_expression, _, total_repeat, context) => {
                 let mut job = self.clone();
@@ -186,28 +185,26 @@ where
                     return None;
                 }
 
-                let schedule = schedule.unwrap();
-                if let Some(upcoming_event) = schedule.after(&get_now()).next() {
-                    job.context.job_type = JobType::Cron(
-                        cron_expression.clone(),
-                        upcoming_event,
-                        *total_repeat + 1,
-                        context.clone(),
-                    );
-                }
-
                 if let Some(max_repeat) = context.max_repeat {
-                    if max_repeat < *total_repeat {
+                    if max_repeat <= *total_repeat {
                         return None;
                     }
                 }
 
+                // No more slot, this was the last run
+                let upcoming_event = schedule.unwrap().after(&get_now()).next()?;
                 if let Some(end_at) = context.end_at {
-                    if end_at < now {
+                    if end_at < upcoming_event {
                         return None;
                     }
                 }
 
+                job.context.job_type = JobType::Cron(
+                    cron_expression.clone(),
+                    upcoming_event,
+                    *total_repeat + 1,
+                    context.clone(),
+                );
                 Some(job)
             }
             _ => None,
-- 
2.43.0


From ebde45598a54cdc766d1bcb5d4756ea73e5a3028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:15 +0000
Subject: [PATCH 05/22] fix: retrying a cron job keeps its cron schedule

---
 aj_core/src/job/job_context.rs | 16 ++++++++++++++++
 aj_core/src/queue.rs           | 10 ++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/aj_core/src/job/job_context.rs b/aj_core/src/job/job_context.rs
index f8e38be..806e117 100644
--- a/aj_core/src/job/job_context.rs
+++ b/aj_core/src/job/job_context.rs
@@ -49,6 +49,22 @@ impl JobType {
         let next_tick = schedule.after(&now).next().unwrap_or(now);
         Ok(Self::Cron(expression.into(), next_tick, 1, context))
     }
+
+    // Retry of the current run. A cron job keeps its schedule, and is not retried after its end.
+    pub(crate) fn retry_at(&self, retry_at: DateTime<Utc>) -> Option<Self> {
+        match self {
+            Self::Cron(_, _, _, context) if context.end_at.is_some_and(|end| end < retry_at) => {
+                None
+            }
+            Self::Cron(expression, _, total_repeat, context) => Some(Self::Cron(
+                expression.clone(),
+                retry_at,
+                *total_repeat,
+                context.clone(),
+            )),
+            _ => Some(Self::ScheduledAt(retry_at)),
+        }
+    }
 }
 
 #[derive(Debug, Clone, Copy, Serialize, Deserialize, Eq, PartialEq)]
diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index c2ddfb3..127fa3d 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -10,7 +10,7 @@ use std::time::Duration;
 
 use crate::job::{Job, JobStatus};
 use crate::types::{get_from_storage, upsert_to_storage, Backend, QueueDirection};
-use crate::{Error, Executable, JobType};
+use crate::{Error, Executable};
 
 const DEFAULT_TICK_DURATION: Duration = Duration::from_millis(100);
 const MAX_PROCESSING_JOBS: usize = 20;
@@ -339,9 +339,11 @@ where
         );
         if let Some(retry_context) = job.context.retry.as_mut() {
             if let Some(next_retry_ms) = job.data.retry_at(retry_context, job_output).await {
-                info!("[WorkQueue] Retry this job. {}", job.id());
-                job.context.job_type = JobType::ScheduledAt(next_retry_ms);
-                return self.re_enqueue(job);
+                if let Some(job_type) = job.context.job_type.retry_at(next_retry_ms) {
+                    info!("[WorkQueue] Retry this job. {}", job.id());
+                    job.context.job_type = job_type;
+                    return self.re_enqueue(job);
+                }
             }
         }
 
-- 
2.43.0


From 01e200dbe15ce5508f4b34e03d2ee14c4a6dad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:46 +0000
Subject: [PATCH 06/22] fix: jobs beyond the capacity of a tick keep their
 place in the queue

---
 aj_core/src/queue.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 127fa3d..8d4ed53 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -267,10 +267,14 @@ where
             current_cursor -= job_ids.len() as i32;
 
             for job_id in job_ids {
+                if ready_jobs.len() >= total {
+                    // No capacity left, the rest keeps its place in the queue
+                    return Ok(ready_jobs);
+                }
+
                 let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id)?;
                 if let Some(mut job) = job {
                     if job.is_ready()
-                        && ready_jobs.len() < total
                         && !ready_jobs
                             .iter()
                             .any(|ready_job: &Job<M>| ready_job.id() == job.id())
-- 
2.43.0


From 06bc78e13ad004da30a96c6dab51e934d4577f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:51 +0000
Subject: [PATCH 07/22] fix: do not pick jobs when the number of running jobs
 is unknown

---
 aj_core/src/queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 8d4ed53..5c52534 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -241,7 +241,7 @@ where
 
     pub fn pick_jobs_to_process(&self) -> Result<Vec<Job<M>>, Error> {
         let processing_queue = self.format_queue_name(JobStatus::Running);
-        let total_processing_jobs = self.backend.queue_count(&processing_queue).unwrap_or(0);
+        let total_processing_jobs = self.backend.queue_count(&processing_queue)?;
         if total_processing_jobs >= self.config.max_processing_jobs {
             return Ok(vec![]);
         }
-- 
2.43.0


From aea07700fa999250ff22b771594fe5bc0d9c07d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:55 +0000
Subject: [PATCH 08/22] fix: a backend failure while picking jobs does not drop
 the jobs already picked

---
 aj_core/src/queue.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 5c52534..24a1b3c 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -250,12 +250,27 @@ where
     }
 
     pub fn try_pick_specific_ready_jobs(&self, total: usize) -> Result<Vec<Job<M>>, Error> {
+        let mut ready_jobs = vec![];
+        if let Err(err) = self.pick_ready_jobs(total, &mut ready_jobs) {
+            if ready_jobs.is_empty() {
+                return Err(err);
+            }
+            // These jobs are already marked as running, they have to be executed
+            error!(
+                "[WorkQueue]: Picked only {} jobs: {err:?}",
+                ready_jobs.len()
+            );
+        }
+
+        Ok(ready_jobs)
+    }
+
+    fn pick_ready_jobs(&self, total: usize, ready_jobs: &mut Vec<Job<M>>) -> Result<(), Error> {
         debug!("Try Picking {total} jobs in queue");
         let idle_queue_name = self.format_queue_name(JobStatus::Queued);
         let processing_queue_name = self.format_queue_name(JobStatus::Running);
 
         let idle_queue_length = self.backend.queue_count(&idle_queue_name)?;
-        let mut ready_jobs = vec![];
         let mut current_cursor = idle_queue_length as i32;
 
         loop {
@@ -269,7 +284,7 @@ where
             for job_id in job_ids {
                 if ready_jobs.len() >= total {
                     // No capacity left, the rest keeps its place in the queue
-                    return Ok(ready_jobs);
+                    return Ok(());
                 }
 
                 let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id)?;
@@ -281,7 +296,6 @@ where
                     {
                         // Job is read to process. Put it in the ready list
                         job.process(self.backend.deref())?;
-                        ready_jobs.push(job);
                         self.backend.queue_move(
                             &idle_queue_name,
                             &processing_queue_name,
@@ -289,6 +303,7 @@ where
                             QueueDirection::Back,
                             QueueDirection::Front,
                         )?;
+                        ready_jobs.push(job);
                         continue;
                     }
                 }
@@ -312,7 +327,7 @@ where
             }
         }
 
-        Ok(ready_jobs)
+        Ok(())
     }
 
     pub fn execute_job_task(&self, job: Job<M>, ctx: &mut Context<WorkQueue<M>>) {
-- 
2.43.0


From 5ee9655a52386d44d7af5a4b11dff1825ac1e4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:20 +0000
Subject: [PATCH 09/22] fix: a failing storage read is an error, not a missing
 job

---
 aj_core/src/backend/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/backend/types.rs b/aj_core/src/backend/types.rs
index 4a2886e..37660fe 100644
--- a/aj_core/src/backend/types.rs
+++ b/aj_core/src/backend/types.rs
@@ -61,7 +61,7 @@ pub fn get_from_storage<T: DeserializeOwned>(
     backend: &dyn Backend,
     key: &str,
 ) -> Result<Option<T>, Error> {
-    let value = backend.storage_get(STORAGE_HASH, key).ok().flatten();
+    let value = backend.storage_get(STORAGE_HASH, key)?;
     let item = match value {
         Some(value) => serde_json::from_str(&value).ok(),
         _ => None,
-- 
2.43.0


From e4500d1527b310f39c6bd7465171aae921f808b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:25 +0000
Subject: [PATCH 10/22] fix: re-enqueueing a job reports a failing push instead
 of losing the job

---
 aj_core/src/queue.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 24a1b3c..5bff0e7 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -153,11 +153,14 @@ where
 
         let current_queue = self.format_queue_name(job.context.job_status);
         self.backend.queue_remove(&current_queue, job.id())?;
-        job.enqueue(self.backend.deref())?;
 
+        // A job is only reported as queued when it is in the queue
         let queued_queue = self.format_queue_name(JobStatus::Queued);
-        if let Err(e) = self.backend.queue_push(&queued_queue, job.id()) {
+        self.backend.queue_push(&queued_queue, job.id())?;
+        if let Err(e) = job.enqueue(self.backend.deref()) {
             error!("[WorkQueue] Cannot re enqueue {}: {:?}", job.id(), e);
+            let _ = self.backend.queue_remove(&queued_queue, job.id());
+            return Err(e);
         };
         Ok(())
     }
-- 
2.43.0


From c1abd7d8313e5e0946a4612ef383908df02be046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:29 +0000
Subject: [PATCH 11/22] fix: overriding the data of a job keeps its real status

---
 aj_core/src/queue.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 5bff0e7..ab1a58b 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -112,16 +112,22 @@ where
         })
     }
 
-    pub fn run_with_config(&self, job: Job<M>, config: EnqueueConfig) -> Result<(), Error> {
-        let key = job.id();
-        let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), key)?;
+    pub fn run_with_config(&self, mut job: Job<M>, config: EnqueueConfig) -> Result<(), Error> {
+        let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), job.id())?;
         if let Some(existing_job) = existing_job {
+            if config.re_run && existing_job.is_done() {
+                info!("[WorkQueue] Re run job {}", existing_job.id());
+                return self.enqueue(job);
+            }
+
             if config.override_data && !existing_job.is_running() {
                 info!(
                     "[WorkQueue] Update exising job with new job data: {}",
                     job.id()
                 );
-                upsert_to_storage(self.backend.deref(), key, &job)?;
+                // New data and context, but the job is still where it was
+                job.context.job_status = existing_job.context.job_status;
+                upsert_to_storage(self.backend.deref(), job.id(), &job)?;
             } else {
                 info!(
                     "[WorkQueue] Job is running, skip update job data: {}",
@@ -129,11 +135,6 @@ where
                 );
             }
 
-            if config.re_run && existing_job.is_done() {
-                info!("[WorkQueue] Re run job {}", existing_job.id());
-                self.enqueue(job)?;
-            }
-
             return Ok(());
         }
 
-- 
2.43.0


From 40ed127d581cebdaf126267858a138799c4769dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:53 +0000
Subject: [PATCH 12/22] fix: entries left in the queue by a half-done call do
 not run a job twice

---
 aj_core/src/queue.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index ab1a58b..5cbcd1e 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -144,8 +144,10 @@ where
     pub fn enqueue(&self, mut job: Job<M>) -> Result<(), Error> {
         let key = job.id();
         info!("[WorkQueue] New Job {}", key);
-        self.backend
-            .queue_push(&self.format_queue_name(JobStatus::Queued), key)?;
+        let queued_queue = self.format_queue_name(JobStatus::Queued);
+        // An earlier enqueue of this job can have failed or crashed halfway
+        self.backend.queue_remove(&queued_queue, key)?;
+        self.backend.queue_push(&queued_queue, key)?;
         job.enqueue(self.backend.deref())
     }
 
@@ -282,6 +284,10 @@ where
                 .backend
                 .queue_get(&idle_queue_name, 20, QueueDirection::Back)?;
 
+            if job_ids.is_empty() {
+                break;
+            }
+
             // Update current cursor
             current_cursor -= job_ids.len() as i32;
 
@@ -293,6 +299,12 @@ where
 
                 let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id)?;
                 if let Some(mut job) = job {
+                    if job.is_done() {
+                        // Left over from a call that failed or crashed halfway, nothing to run
+                        self.backend.queue_remove(&idle_queue_name, &job_id)?;
+                        continue;
+                    }
+
                     if job.is_ready()
                         && !ready_jobs
                             .iter()
-- 
2.43.0


From aed8dfa60e45f96e6d4828a4b5343d58828e40b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:58 +0000
Subject: [PATCH 13/22] fix: updating a job with a new context keeps the id of
 the job

---
 aj_core/src/aj.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index c1cee12..6098e38 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -205,7 +205,11 @@ impl AJ {
         if let Some(mut job) = job {
             job.data = data;
             if let Some(context) = context {
-                job.context = context;
+                // It stays the same job, whatever id the new context has
+                job.context = JobContext {
+                    job_id: job.context.job_id,
+                    ..context
+                };
             }
             Self::add_job(job, M::queue_name()).await?;
         } else {
-- 
2.43.0


From d1cff7dbd56397c384e39b32cd74460c4d52bceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:03 +0000
Subject: [PATCH 14/22] fix: planning a retry never overflows

---
 aj_core/src/job/retry.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/aj_core/src/job/retry.rs b/aj_core/src/job/retry.rs
index f49f5fd..667db3a 100644
--- a/aj_core/src/job/retry.rs
+++ b/aj_core/src/job/retry.rs
@@ -55,14 +55,20 @@ impl Retry {
     }
 
     pub fn retry_at(&mut self, now: Option<DateTime<Utc>>) -> DateTime<Utc> {
-        self.retried_times += 1;
+        self.retried_times = self.retried_times.saturating_add(1);
         let final_now = now.unwrap_or(get_now());
-        match &self.strategy {
-            RetryStrategy::Interval(internal_time) => final_now + *internal_time,
-            RetryStrategy::ExponentialBackoff(initial_backoff) => {
-                final_now + *initial_backoff * 2_i32.pow(self.retried_times as u32)
+        let delay = match &self.strategy {
+            RetryStrategy::Interval(internal_time) => Some(*internal_time),
+            RetryStrategy::ExponentialBackoff(initial_backoff) if initial_backoff.is_zero() => {
+                Some(*initial_backoff)
             }
-        }
+            RetryStrategy::ExponentialBackoff(initial_backoff) => (0..self.retried_times)
+                .try_fold(*initial_backoff, |backoff, _| backoff.checked_add(&backoff)),
+        };
+        // Too far away to be represented: as late as possible
+        delay
+            .and_then(|delay| final_now.checked_add_signed(delay))
+            .unwrap_or(DateTime::<Utc>::MAX_UTC)
     }
 }
 
-- 
2.43.0


From 9de1e4d88b7b6e62f79994be4e093301f306888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:24 +0000
Subject: [PATCH 15/22] fix: reading no items from a Redis queue yields no
 items

---
 aj_core/src/backend/redis.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/aj_core/src/backend/redis.rs b/aj_core/src/backend/redis.rs
index 76e81cc..606a223 100644
--- a/aj_core/src/backend/redis.rs
+++ b/aj_core/src/backend/redis.rs
@@ -43,8 +43,9 @@ impl Redis {
                 clone_direction(&to_direction),
             )?;
 
-            if let Some(item) = result {
-                items.push(item)
+            match result {
+                Some(item) => items.push(item),
+                None => break,
             }
         }
 
@@ -57,11 +58,17 @@ impl Redis {
         count: usize,
         queue_direction: QueueDirection,
     ) -> RedisResult<Vec<String>> {
+        // For Redis, a range up to -1 is the whole list
+        if count == 0 {
+            return Ok(vec![]);
+        }
+
         let mut conn = self.client.get_connection()?;
+        let count = isize::try_from(count).unwrap_or(isize::MAX);
         let items = match queue_direction {
-            QueueDirection::Front => conn.lrange(queue, 0, count as isize - 1)?,
+            QueueDirection::Front => conn.lrange(queue, 0, count - 1)?,
             QueueDirection::Back => {
-                let mut res: Vec<String> = conn.lrange(queue, -(count as isize), -1)?;
+                let mut res: Vec<String> = conn.lrange(queue, -count, -1)?;
                 res.reverse();
                 res
             }
-- 
2.43.0


From 3aaa753f168d406ac38d15d779ffb2b35eb40710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:29 +0000
Subject: [PATCH 16/22] fix: the in-memory queue moves items one at a time,
 like Redis

---
 aj_core/src/backend/mem.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/aj_core/src/backend/mem.rs b/aj_core/src/backend/mem.rs
index d97dd5b..362c866 100644
--- a/aj_core/src/backend/mem.rs
+++ b/aj_core/src/backend/mem.rs
@@ -41,25 +41,24 @@ impl Backend for InMemory {
     ) -> Result<Vec<String>, Error> {
         let mut queues = self.queues.lock().unwrap();
         let mut moving_items = vec![];
-        if let Some(from_queue) = queues.get_mut(from_queue) {
-            for _ in 0..count {
-                let item = match from_direction {
+        for _ in 0..count {
+            let item = queues
+                .get_mut(from_queue)
+                .and_then(|from_queue| match from_direction {
                     QueueDirection::Front => from_queue.pop_front(),
                     QueueDirection::Back => from_queue.pop_back(),
-                };
-                if let Some(item) = item {
-                    moving_items.push(item);
-                }
-            }
-        }
+                });
+            let Some(item) = item else {
+                break;
+            };
 
-        for moving_item in moving_items.iter() {
             if let Some(to_queue) = queues.get_mut(to_queue) {
-                insert_item_to_queue(to_queue, moving_item.clone(), to_direction);
+                insert_item_to_queue(to_queue, item.clone(), to_direction);
             } else {
-                let items = VecDeque::from([moving_item.clone()]);
+                let items = VecDeque::from([item.clone()]);
                 queues.insert(to_queue.to_string(), items);
             }
+            moving_items.push(item);
         }
 
         Ok(moving_items)
@@ -83,10 +82,8 @@ impl Backend for InMemory {
         if let Some(queue) = self.queues.lock().unwrap().get(queue) {
             match direction {
                 QueueDirection::Front => {
-                    for index in 0..count {
-                        if let Some(item) = queue.get(index) {
-                            items.push(item.to_string());
-                        }
+                    for item in queue.iter().take(count) {
+                        items.push(item.to_string());
                     }
                 }
                 QueueDirection::Back => {
-- 
2.43.0


From ced337920eff1b5f95bbf9942a256e9c29469ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:46 +0000
Subject: [PATCH 17/22] fix: the job macro accepts functions without arguments,
 with mut arguments or a trailing comma

---
 aj_macro/src/lib.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/aj_macro/src/lib.rs b/aj_macro/src/lib.rs
index ab82a2b..fb5157e 100644
--- a/aj_macro/src/lib.rs
+++ b/aj_macro/src/lib.rs
@@ -3,7 +3,7 @@ extern crate proc_macro;
 use convert_case::{Case, Casing};
 use proc_macro::TokenStream;
 use quote::quote;
-use syn::{parse_macro_input, DeriveInput, FnArg, ItemFn, Pat, PatType, ReturnType};
+use syn::{parse_macro_input, DeriveInput, FnArg, ItemFn, Pat, PatIdent, PatType, ReturnType};
 
 #[proc_macro_derive(BackgroundJob)]
 pub fn background_job_derive(input: TokenStream) -> TokenStream {
@@ -47,9 +47,9 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         .iter()
         .filter_map(|arg| {
             if let FnArg::Typed(PatType { pat, ty, .. }) = arg {
-                if let Pat::Ident(ident) = &**pat {
+                if let Pat::Ident(PatIdent { ident, .. }) = &**pat {
                     Some(quote! {
-                        pub #ident: #ty
+                        #ident: #ty
                     })
                 } else {
                     None
@@ -65,7 +65,7 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         .iter()
         .filter_map(|arg| {
             if let FnArg::Typed(PatType { pat, .. }) = arg {
-                if let Pat::Ident(ident) = &**pat {
+                if let Pat::Ident(PatIdent { ident, .. }) = &**pat {
                     // TODO: This is a not good way to pass variable from struct to fn logic.
                     // IMHO, the best apporach is transform the original fn code to mapping with struct like destructure, etc to remove clone memory value.
                     Some(quote! { self.#ident.clone() })
@@ -82,7 +82,7 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         .iter()
         .filter_map(|arg| {
             if let FnArg::Typed(PatType { pat, .. }) = arg {
-                if let Pat::Ident(ident) = &**pat {
+                if let Pat::Ident(PatIdent { ident, .. }) = &**pat {
                     Some(quote! { #ident })
                 } else {
                     None
@@ -125,7 +125,7 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
                 aj::export::core::serde::Deserialize,
             )]
             pub struct #job_struct_name {
-                #(#input_fields),*
+                #(pub #input_fields),*
             }
 
             // Automatically implement the trait for the struct
@@ -141,33 +141,33 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
             }
 
             impl #job_struct_name {
-                fn new(#fn_inputs) -> Self {
+                fn new(#(#input_fields),*) -> Self {
                     Self {
                         #(#input_names),*
                     }
                 }
             }
 
-            pub async fn run(#fn_inputs) -> Result<String, aj::Error> {
+            pub async fn run(#(#input_fields),*) -> Result<String, aj::Error> {
                 let msg = #job_struct_name::new(#(#input_names),*);
                 let job_id = msg.job().run().await?;
                 Ok(job_id)
             }
 
-            pub fn just_run(#fn_inputs) {
+            pub fn just_run(#(#input_fields),*) {
                 let msg = #job_struct_name::new(#(#input_names),*);
                 msg.job().just_run();
             }
 
-            pub async fn run_with_context(#fn_inputs, context: aj::JobContext) -> Result<String, aj::Error> {
+            pub async fn run_with_context(#(#input_fields,)* __aj_context: aj::JobContext) -> Result<String, aj::Error> {
                 let msg = #job_struct_name::new(#(#input_names),*);
-                let job_id = msg.job().context(context).run().await?;
+                let job_id = msg.job().context(__aj_context).run().await?;
                 Ok(job_id)
             }
 
-            pub fn just_run_with_context(#fn_inputs, context: aj::JobContext) {
+            pub fn just_run_with_context(#(#input_fields,)* __aj_context: aj::JobContext) {
                 let msg = #job_struct_name::new(#(#input_names),*);
-                msg.job().context(context).just_run();
+                msg.job().context(__aj_context).just_run();
             }
         }
     };
-- 
2.43.0


From 7943a3898173198486a9ae38b567e742ab498b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:11 +0000
Subject: [PATCH 18/22] fix: a panicking job fails alone instead of taking down
 its queue

---
 aj_core/src/queue.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 5cbcd1e..5998439 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -3,9 +3,12 @@ use actix::*;
 use serde::de::DeserializeOwned;
 use serde::Serialize;
 use std::fmt::Debug;
+use std::future::{poll_fn, Future};
 use std::marker::PhantomData;
 use std::ops::Deref;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::sync::Arc;
+use std::task::Poll;
 use std::time::Duration;
 
 use crate::job::{Job, JobStatus};
@@ -350,9 +353,26 @@ where
         let this = self.clone();
         let task = async move {
             // TODO: Consider Smart Pointer to wrap job instead of clone
-            if let Err(err) = this.execute_job(job.clone()).await {
-                error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
-                let _ = this.mark_job_is_failed(job);
+            let mut execution = std::pin::pin!(this.execute_job(job.clone()));
+            // The panic of a job must not take down the queue and its other jobs
+            let result = poll_fn(|cx| {
+                match catch_unwind(AssertUnwindSafe(|| execution.as_mut().poll(cx))) {
+                    Ok(poll) => poll.map(Some),
+                    Err(_) => Poll::Ready(None),
+                }
+            })
+            .await;
+
+            match result {
+                Some(Ok(())) => {}
+                Some(Err(err)) => {
+                    error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
+                    let _ = this.mark_job_is_failed(job);
+                }
+                None => {
+                    error!("[WorkQueue] Job {} panicked", job.id());
+                    let _ = this.mark_job_is_failed(job);
+                }
             }
         };
         wrap_future::<_, Self>(task).spawn(ctx);
-- 
2.43.0


From 0a39c3a96724198d522d7ea69f3962e4a3f8f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:17 +0000
Subject: [PATCH 19/22] fix: data that cannot be stored is refused instead of
 stored as an empty record

---
 aj_core/src/backend/types.rs | 2 +-
 aj_core/src/error.rs         | 7 +++++++
 aj_core/src/queue.rs         | 6 +++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/aj_core/src/backend/types.rs b/aj_core/src/backend/types.rs
index 37660fe..1878ba0 100644
--- a/aj_core/src/backend/types.rs
+++ b/aj_core/src/backend/types.rs
@@ -48,7 +48,7 @@ pub fn upsert_to_storage<T: Serialize>(
     key: &str,
     value: T,
 ) -> Result<(), Error> {
-    let value = serde_json::to_string(&value).unwrap_or("".into());
+    let value = serde_json::to_string(&value)?;
     let res = backend.storage_upsert(STORAGE_HASH, key, value);
     if let Err(e) = &res {
         warn!("[Storage] Upsert failed {key} Failed {:?}", e);
diff --git a/aj_core/src/error.rs b/aj_core/src/error.rs
index 5f25ffe..49d21fa 100644
--- a/aj_core/src/error.rs
+++ b/aj_core/src/error.rs
@@ -7,6 +7,7 @@ pub enum Error {
     CronError(cron::error::Error),
     MailboxError(MailboxError),
     NoQueueRegister,
+    SerializeError(serde_json::Error),
 }
 
 impl From<RedisError> for Error {
@@ -26,3 +27,9 @@ impl From<MailboxError> for Error {
         Self::MailboxError(value)
     }
 }
+
+impl From<serde_json::Error> for Error {
+    fn from(value: serde_json::Error) -> Self {
+        Self::SerializeError(value)
+    }
+}
diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 5998439..d46f4cf 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -151,7 +151,11 @@ where
         // An earlier enqueue of this job can have failed or crashed halfway
         self.backend.queue_remove(&queued_queue, key)?;
         self.backend.queue_push(&queued_queue, key)?;
-        job.enqueue(self.backend.deref())
+        if let Err(e) = job.enqueue(self.backend.deref()) {
+            let _ = self.backend.queue_remove(&queued_queue, job.id());
+            return Err(e);
+        }
+        Ok(())
     }
 
     pub fn re_enqueue(&self, mut job: Job<M>) -> Result<(), Error> {
-- 
2.43.0


From fa813e9e5972b2044d1a6fe2aa4f7c0a625f841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:31 +0000
Subject: [PATCH 20/22] fix: a failed job frees its capacity even if its status
 cannot be stored

---
 aj_core/src/queue.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index d46f4cf..700c4c9 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -197,6 +197,8 @@ where
 
     pub fn mark_job_is_failed(&self, mut job: Job<M>) -> Result<(), Error> {
         info!("Failed job {}", job.id());
+        // Free the capacity first, storing the status can fail
+        self.remove_processing_job(job.id());
         job.fail(self.backend.deref())?;
         self.push_failed_job(job.id());
         Ok(())
-- 
2.43.0


From d4ff2ba556048a0e3ea9a885fb7201d3b006dc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:11 +0000
Subject: [PATCH 21/22] fix: manual retry after a submission that failed
 halfway ran the job twice

---
 aj_core/src/queue.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 700c4c9..464754f 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -164,8 +164,10 @@ where
         let current_queue = self.format_queue_name(job.context.job_status);
         self.backend.queue_remove(&current_queue, job.id())?;
 
-        // A job is only reported as queued when it is in the queue
+        // A job is only reported as queued when it is in the queue, and it is there once: an
+        // earlier enqueue of this job can have failed or crashed halfway
         let queued_queue = self.format_queue_name(JobStatus::Queued);
+        self.backend.queue_remove(&queued_queue, job.id())?;
         self.backend.queue_push(&queued_queue, job.id())?;
         if let Err(e) = job.enqueue(self.backend.deref()) {
             error!("[WorkQueue] Cannot re enqueue {}: {:?}", job.id(), e);
-- 
2.43.0


From da73aa24fec54a06e2eb3a2a28e3ad5188d6b449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:41 +0000
Subject: [PATCH 22/22] fix: a job function named context did not compile

---
 aj_macro/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aj_macro/src/lib.rs b/aj_macro/src/lib.rs
index fb5157e..1c2689e 100644
--- a/aj_macro/src/lib.rs
+++ b/aj_macro/src/lib.rs
@@ -112,7 +112,7 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         #input_fn
 
         pub mod #fn_name {
-            use aj::{BackgroundJob, JobContext};
+            use aj::BackgroundJob;
             use super::*;
 
             // Define a new trait
@@ -133,7 +133,7 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
             impl aj::Executable for #job_struct_name {
                 type Output = #fn_output_type;
 
-                async fn execute(&mut self, _context: &JobContext) -> Self::Output {
+                async fn execute(&mut self, _context: &aj::JobContext) -> Self::Output {
                     use super::#fn_name;
 
                     #call_fn
-- 
2.43.0

