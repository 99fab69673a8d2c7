#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit and diff).
import json, os
Q='aj_core/src/queue.rs'; J='aj_core/src/job/mod.rs'; A='aj_core/src/aj.rs'; R='aj_core/src/job/retry.rs'
C='aj_core/src/job/job_context.rs'; X='aj_core/src/job/executable.rs'; P='aj_core/src/plugin/mod.rs'; PJ='aj_core/src/plugin/job_plugin.rs'
M='aj_core/src/backend/mem.rs'; RD='aj_core/src/backend/redis.rs'; T='aj_core/src/backend/types.rs'; L='aj_core/src/lib.rs'
MA='aj_macro/src/lib.rs'
def mech(*a): return [{"name":n,"where":w} for n,w in a]
def st(*a): return [{"name":n,"meaning":m,"where":w} for n,m,w in a]
props=[]
def prop(id,title,statement,over,text,why,files,mechanism,state=(),observe=()):
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
        why_tests_cant=why,anchors=dict(files=files,state=st(*state),mechanism=mech(*mechanism),observe_at=list(observe),hook_needed=None)))

QST=(("waiting queue","ids waiting to be started",Q),("processing queue","ids being executed; its length is the occupied capacity",Q),("stored job","last persisted context and data of a job id",T))

prop("C01","Every accepted job is eventually executed",
 "Whenever submitting a job is acknowledged, the job is executed once it is due, unless it is cancelled or replaced first: however many jobs are waiting, however due and not-yet-due jobs are mixed, for any concurrency limit of at least one and any tick length. A job that ends, in whatever way (success, failure, automatic retry, repetition, cancellation before start), gives back the capacity it used, so the queue never stalls while work is due. Fire-and-forget submissions to a running engine behave the same.",
 ["histories","inputs","configurations"],"all finite histories of submissions (immediate, delayed, past, repeated, retried), cancellations and limit/tick changes over several job types, backlogs from 0 to several hundred jobs",
 "The existing tests never start a work queue: no test submits a job and waits for its execution, so backlog sizes, paging over the waiting queue, capacity accounting and mixes of due/not-due jobs are not reached at all.",
 [Q,A,L,J],(("try_pick_specific_ready_jobs",Q),("process_jobs re-arming tick",Q),("remove_processing_job / re_enqueue",Q),("is_ready",J),("just_run",L)),QST,("Executable::execute calls","AJ::get_job"))
prop("C02","One execution per accepted submission, never two at once",
 "A plain job is executed exactly once per accepted submission, and no job id is ever executing twice at the same time. Submitting an id that is still waiting replaces its data without adding a run, submitting an id that is executing changes nothing, and submitting an id that is finished, failed or cancelled adds exactly one new run with the new data. Jobs that are not given an id get one that no other job has, whichever thread or process creates them.",
 ["histories","schedules"],"all histories of (re)submissions of equal and different ids, from several concurrent clients, at every point of the life of the job",
 "No existing test submits through a queue or submits an id twice; uniqueness has to hold at every moment of a job's life and for every order of concurrent submissions.",
 [Q,A,L],(("run_with_config (existing job branch)",Q),("ready list de-duplication and queue_move",Q),("enqueue",Q)),QST,("Executable::execute calls",))
prop("C03","Scheduled and delayed jobs never start early, and start promptly",
 "A job scheduled for an instant, or with a delay, is never started before that instant (to the microsecond), for any distance from milliseconds to years, past or future. Once the instant has passed and capacity is free, it starts within about two ticks of the queue, in whatever order jobs with different instants were submitted.",
 ["inputs","histories","configurations"],"all instants and delays (negative, zero, sub-second, days, years), all ticks, any mix of scheduled and immediate jobs in one queue",
 "The only test checks that one job one second ahead is not ready immediately; nothing checks later instants, promptness, or that the schedule survives storage.",
 [J,C,Q],(("is_ready",J),("delay / schedule_at",J),("ts_microseconds encoding",C),("tick loop",Q)),QST,("Executable::execute calls",))
prop("C04","Cron jobs run once per slot, within their limits, then end",
 "A cron job starts at the first slot of its expression (in UTC, whatever the local time zone) after submission and after each run at the first slot following the end of that run: at most one run per slot, never before the slot, promptly after it, and slots that pass while it executes are skipped. It runs at most its maximum number of repetitions (not at all if that is below one) and never starts after its end time; after the last permitted run (limit reached, no later slot, or next slot past the end time) it is reported finished or failed and never runs again. JobType::new_cron answers every invalid expression with an error and never panics (the shorthand Job::cron, meant for literals, unwraps that error).",
 ["inputs","histories"],"all cron expressions of the supported grammar, all repetition limits and end times, all run durations shorter or longer than the slot distance, arbitrary strings as expressions",
 "Tests build one cron job and check it is not ready; no test lets a cron job run, repeat, reach its limit, its end time or the end of its schedule.",
 [J,C,Q],(("next_tick",J),("is_ready",J),("new_cron",C),("execute_job re-enqueue",Q)),(("repeat counter and next slot","kept inside the stored job type",C),),("Executable::execute calls","AJ::get_job"))
prop("C05","Automatic retry: exact attempts, delays and final status",
 "A failing job with a retry policy is executed again after each failed run until a run succeeds or the maximum number of retries is used up, so it runs at most 1 + max_retries times (without limit if none is set), and never again after success or exhaustion. Each retry starts no earlier than the policy's delay after the failed run ended and promptly after it: the fixed interval, or initial backoff times 2^k for the k-th retry. The final status is finished or failed as decided by the last run, and a repeating (cron) job that retries keeps its schedule afterwards.",
 ["inputs","histories"],"all retry policies (limits incl. 0 and none, intervals, backoffs), all success/failure sequences, durations and custom retry decisions, combined with plain, scheduled and cron jobs",
 "Tests call the retry calculator in isolation for a handful of values; no test lets the queue perform a retry, exhaust it, or combine it with storage, cron or manual retry.",
 [Q,R,X],(("execute_job retry branch",Q),("Retry::should_retry / retry_at",R),("Executable::retry_at",X),("re_enqueue",Q)),(("retried_times","retries already used, persisted with the job",R),),("Executable::execute calls","AJ::get_job"))
prop("C06","Cancelling: a cancelled waiting job never runs; others are untouched",
 "When cancelling a job that is waiting (immediate, scheduled, cron or between retries) is acknowledged, the job is reported cancelled and is not executed any more unless it is explicitly submitted, updated or retried later. Cancelling a job that is executing, already done, or unknown has no effect on its execution, its further retries or repetitions, or its reported status, and never affects other jobs.",
 ["histories","schedules"],"all histories in which cancellations hit jobs in every state and kind, with other jobs around them",
 "No existing test cancels anything.",
 [Q,A,J],(("cancel_job",Q),("Job::cancel",J)),QST,("Executable::execute calls","AJ::get_job"))
prop("C07","Updating a job: next runs use the new data, no extra runs",
 "Updating a waiting job makes every later run use exactly the new data (and the new schedule and retry policy if a context is given), under the same job id, without adding a run, without changing its place in the queue, and without affecting other jobs. Updating a job that is executing changes nothing; updating a job that is done (finished, failed or cancelled) runs it exactly once more with the new data; updating an unknown id does nothing.",
 ["histories","inputs"],"all histories of updates with and without context (whatever id the context carries) applied to jobs in every state and kind",
 "No existing test updates a job.",
 [A,Q],(("AJ::update_job",A),("run_with_config override branch",Q)),QST,("Executable::execute calls","AJ::get_job"))
prop("C08","Manual retry runs a done job exactly once more",
 "Manually retrying a job answers true exactly when the job exists and is finished, failed or cancelled, and then it is queued again and executed exactly once more (plus any retries or repetitions it is still entitled to) with its stored data and schedule. For a waiting, executing or unknown job it answers false and changes nothing.",
 ["histories"],"all histories of manual retries applied to jobs in every state and kind, repeatedly and mixed with cancel, update and submit",
 "No existing test calls manual retry; the example program does it once for one state.",
 [Q,A],(("retry_job",Q),("re_enqueue",Q),("is_done",J)),QST,("Executable::execute calls","return value","AJ::get_job"))
prop("C09","The concurrency limit is never exceeded and capacity is used",
 "At every moment at most the configured maximum number of jobs of a queue are executing, also right after the limit was lowered (no new job starts until the number executing is below the new limit) and independently per job type. Conversely, while fewer than that many are executing and a due job is waiting, one starts within about two ticks; configuration changes take effect without losing or duplicating jobs.",
 ["histories","configurations","schedules"],"all limits from 0 to beyond the backlog, all changes of limit and tick while jobs are waiting and executing, all run durations",
 "No existing test starts more than zero jobs in a queue; the limit is never exercised.",
 [Q,A],(("pick_jobs_to_process",Q),("UpdateWorkQueue handler",Q)),(("processing queue length","occupied capacity",Q),),("Executable::execute begin/end",))
prop("C10","The reported job state is the true one",
 "At every quiet moment, looking up a job by id returns its actual status (waiting, executing, finished, failed, cancelled), its current data, its schedule and retry policy, and the number of completed executions since it was last submitted, and timestamps of submission, start, completion and cancellation that lie at the actual times of those events; an unknown id yields nothing. Status only moves along legal transitions: waiting to executing or cancelled; executing to finished, failed or (retry/repeat) waiting; done to waiting only by explicit resubmission, update or manual retry.",
 ["histories"],"all histories of all operations on several jobs, with look-ups interleaved at arbitrary moments",
 "Existing tests look only at a freshly built job value; no test reads a job back from an engine.",
 [Q,J,A,C],(("enqueue/process/finish/fail/cancel transitions",J),("get_job",Q)),QST,("AJ::get_job",))
prop("C11","Plugins see every run and every status change exactly once",
 "For every registered plugin and every execution of every job, the before-run hook is called exactly once and completes before the job code starts, and the after-run hook is called exactly once after the job code has ended (unless it panicked). Every status change of a job (queued, running, finished, failed, cancelled) is reported to every plugin exactly once with the right job id and status, and nothing else is reported. A hook that takes long or panics keeps no job from running.",
 ["histories","configurations"],"all histories of all operations with zero to several plugins registered, several job types",
 "The plugin tests call the wrapper directly with one hook; the dispatch from engine to plugin is never run, and the before/after tests only invoke the status hook.",
 [P,PJ,J],(("PluginCenter::before/after/change_status",P),("Job::execute",J)),(("plugin list","registered plugins",P),),("JobPlugin callbacks",))
prop("C12","Due jobs of a queue start in submission order",
 "Among the jobs of one queue that are due from the moment they are submitted, execution starts in the order of submission, whatever the backlog, the concurrency limit and the delayed jobs mixed in between: a later one is never started in an earlier tick, those of one tick are begun in that order (and may then interleave), and no due job waits indefinitely while later ones are started.",
 ["histories","configurations"],"all backlogs (also larger than any internal page), limits, arrival patterns and mixes of due and not-yet-due jobs",
 "No existing test has two jobs in one queue.",
 [Q,M],(("try_pick_specific_ready_jobs paging and rotation",Q),("queue_push front / take from back",M)),QST,("Executable::execute begin",))
prop("C13","Backends obey one queue/storage contract",
 "Both built-in backends (in-memory and Redis) behave, for every sequence of operations, like one reference model: double-ended queues keyed by name (push to the front; move items one by one, each atomically, between named ends; remove every occurrence; read up to n from either end in order from that end; count) plus hash maps with overwrite and absent-as-none, for arbitrary names, items, values and counts. Operations on one queue or key never affect another, and concurrent use never loses or duplicates an item.",
 ["inputs","histories","schedules"],"all operation sequences over arbitrary strings and counts (0, 1, more than present), same or different source and target queues; concurrent callers",
 "Seven example-based tests cover short sequences on the in-memory backend; the Redis tests are ignored, and counts of zero, moves within one queue, equal items and concurrency are not covered.",
 [M,RD,T],(("InMemory",M),("Redis",RD),("QueueDirection mapping",RD)),(("queues/storages","in-memory state",M),),("Backend trait results",))
prop("C14","Jobs survive storage unchanged",
 "Every job context and data that is stored and read back is the same: id, schedule (to the microsecond), cron expression, slot, counters and limits, retry policy with used retries, status, timestamps and run count, for all representable values and all data that JSON can represent; storing the result again yields the same record. Records written by earlier versions of the library still load: those in the present format, and those without the optional fields (job id, cron counters), which get their defaults, and unreadable records are reported as absent rather than crashing; data that cannot be stored is refused at submission.",
 ["inputs"],"all contexts: every status, type, policy, instant, duration, counter and string; arbitrary bytes as stored record",
 "No existing test serialises a job.",
 [C,R,T,J],(("serde attributes (ts_microseconds, DurationMicroSeconds, default)",C),("RetryStrategy encoding",R),("upsert_to_storage / get_from_storage",T)),(),("types::upsert_to_storage / get_from_storage","AJ::get_job"))
prop("C15","Waiting jobs survive a crash; done jobs are not run again",
 "If the process dies at any point and a new one starts on the same backend contents, then, once the job type is in use again, every job that was acknowledged and waiting to be started (first run, retry or repetition) is executed exactly once for what it waited for, with its data and schedule; jobs reported finished, failed or cancelled before the crash are not executed again. A submission or manual retry that was not acknowledged because of the crash and is repeated by the client before the job was started results in exactly one run, a repeated cancel in none. If it is not repeated it has taken effect or it has not: a job that is reported as waiting afterwards is executed.",
 ["crash_points","histories"],"every crash point between two backend operations of generated histories, followed by restart, optional resubmission and continuation",
 "No existing test restarts anything; every backend operation is a potential crash point.",
 [Q,J,T],(("enqueue: push then upsert",Q),("pick: upsert then move",Q),("mark_job_is_finished",Q)),QST,("Executable::execute calls before and after the restart",))
prop("C16","Backend failures are never reported as success, nor lose or double work",
 "When a backend operation fails transiently (with an error and without effect), a submit, cancel or manual-retry call either reports an error or has really taken effect: it never answers success for work that will then not run, not be cancelled, or run twice. A failing operation while the engine dispatches jobs never loses a job, runs it twice, or lets more jobs run than the limit; the engine carries on once the backend works again.",
 ["fault_sequences","histories"],"every single failing backend operation (and bursts of them) in generated histories",
 "No existing test has a failing backend; each backend call in each operation is a separate fault point.",
 [Q,T,A],(("error propagation in run_with_config/enqueue/re_enqueue/cancel_job",Q),("pick_jobs_to_process error path",Q),("get_from_storage",T)),QST,("call results","Executable::execute calls"))
prop("C17","A panicking job is contained",
 "If the code of a job panics, that job is reported failed and its capacity is freed; all other jobs of the same and other types, waiting, executing or submitted later, are executed and reported as usual, and the panicking job can still be looked up and retried.",
 ["histories","fault_sequences"],"all histories in which runs of some jobs panic at some point (before, during, after awaiting), mixed with other jobs and operations",
 "No existing test runs a panicking job.",
 [Q],(("execute_job_task",Q),),QST,("Executable::execute calls","AJ::get_job"))
prop("C18","Engine start and first use are race-free on any runtime",
 "Starting the engine any number of times, concurrently and from any thread, under an actix system, a tokio runtime or no runtime, yields one engine: every call returns the same running instance and the first backend stays in use. Any number of concurrent first submissions of one or several job types, awaited or fire-and-forget, are all accepted and executed exactly once, and the engine stays usable for further job types afterwards.",
 ["schedules","configurations","histories"],"all orders of concurrent start calls and first submissions from tasks and threads, host runtimes actix, tokio and none",
 "Tests start the engine sequentially and never submit; concurrent start and concurrent first use are not tested.",
 [A,L],(("AJ::start / register_addr",A),("InitWorkQueue handler / register",A),("JustRunJob",A)),(("AJ_ADDR","address of the engine",A),("QUEUE_REGISTRY","queue per job type",A)),("AJ::start results","Executable::execute calls"))
prop("C19","The job macro turns any plain function into an equivalent job",
 "For every plain function signature (zero or more by-value arguments of serialisable types, also declared mut, synchronous or asynchronous, with or without a return type), the annotated function compiles and each of its generated entry points (run, just_run and their with-context variants) results in one call of the original function with exactly the given argument values in their positions, under the given context; the function itself stays callable directly.",
 ["programs","inputs"],"generated programs: arbitrary signatures, names, argument types and argument values",
 "The macro is exercised by two example functions with one String argument, of which no test checks the execution.",
 [MA],(("job attribute macro",MA),("BackgroundJob derive",MA)),(),("calls of the annotated function",))
prop("C20","Retry planning is exact and total",
 "For every policy state and instant, planning a retry never panics, yields exactly the instant plus the interval, or plus initial backoff times 2^k for the k-th retry, capped at the latest representable instant instead of overflowing, and never an instant before the given one for non-negative delays. A policy permits a retry exactly while fewer than its maximum have been planned (always, without a maximum), also after being stored and reloaded.",
 ["inputs","histories"],"all used-retry counts, limits, intervals and backoffs (zero to the largest), all instants, all lengths of retry sequences",
 "Tests compute three steps from one instant with small values.",
 [R],(("Retry::retry_at",R),("Retry::should_retry",R)),(("retried_times","retries planned so far",R),),("return values",))
prop("C21","Job types do not interfere with each other",
 "Jobs of different types are independent: submitting, executing, cancelling, updating, retrying or looking up jobs of one type never changes, delays, starts, stops or exposes jobs of another type, whatever job ids are used, and each job is executed by its own type's code with its own data. A type's concurrency limit and tick apply to that type only.",
 ["histories","inputs"],"all histories over several job types, including ids that exist for another type and types with equally shaped data",
 "No existing test uses two job types.",
 [Q,T,A],(("per-type queue names",Q),("STORAGE_HASH shared storage",T),("registry by type",A)),(("shared storage hash","all types' jobs by id",T),),("Executable::execute calls","AJ::get_job::<T>"))
prop("C22","A run performs the job's own steps once, in order, and keeps its state",
 "Each execution calls the job's pre-execute, execute and post-execute steps exactly once in this order, with the job's id and the 1-based number of the run (panicking runs aside) in the context; the outcome returned by post-execute decides failure and retry. Changes a run makes to the job's own data are what the next run (retry, repetition or manual retry) starts from and what a look-up shows afterwards.",
 ["histories","inputs"],"all jobs overriding any subset of the steps, outcomes altered by the post step, data mutated by runs, over retries, cron repetitions and manual retries",
 "One test calls execute once on a value in memory; steps, state carry-over through storage and run numbering across retries are not tested.",
 [J,X,Q],(("Job::execute",J),("execute_job",Q)),(("job.data","mutable data of the job",J),),("Executable callbacks","AJ::get_job"))
prop("C23","A queue looks for work once per tick, and never stops",
 "From the first use of a job type on, its queue looks for due jobs once per tick: while no call is made and no job starts or ends, it turns to the backend no earlier than one tick and no later than about two ticks after the last time, whatever happened before (bursts, backlogs, failing, panicking, retried, repeated and cancelled jobs, further AJ::start calls, failing backend operations, configuration changes). A changed tick, shorter or longer, is in force from the next look on, and a look takes a number of backend operations at most in proportion to the jobs the queue was given.",
 ["histories","schedules","configurations","fault_sequences"],"all histories, all ticks and changes of tick, backend failures at any operation, any idle time afterwards",
 "No test lets a queue idle or counts what it does; extra polling loops, a loop that ends, or a stale tick change no result of a single job.",
 [Q],(("process_jobs",Q),("Handler<UpdateWorkQueue>",Q),("pick_jobs_to_process",Q)),(("config.process_tick_duration","time between two looks",Q),),("Backend operations","AJ::update_work_queue"))
prop("C24","A job is exactly what it was put together as",
 "However a job is put together, by any sequence of set_id, context, job_type, schedule_at, delay, cron and retry and their set_ aliases, it carries the last value given for each setting (a context gives all of them at once) and its data unchanged; what was not given is that of a new job: a fresh id, plain, waiting, never run, no retry policy, created now, no other timestamp. A delay counts from the call, to the microsecond; a cron job starts at the first slot of its expression after the call. id, is_queued, is_running and is_cancelled answer according to the context for every status, and is_ready says whether the job may start now: a plain job always, a scheduled one once its instant has passed, a cron job from its slot on while its repetitions are not used up and its end has not passed.",
 ["inputs","histories"],"all sequences of builder calls, all instants, statuses, limits, end times and retry policies",
 "The tests build a handful of jobs with one call each; order, repetition and combination of the calls, and the questions for every status and instant, are not sampled.",
 [J,C],(("Job::set_*",J),("is_ready, is_queued, is_running, is_cancelled",J),("JobType::new_cron",C)),(("JobContext","id, schedule, status, retry policy, timestamps, run count",C),),("Job::id","Job::context","Job::is_ready"))
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in props: f.write(json.dumps(p)+"\n")
for p in props:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
    n=p['statement'].count('. ')+1
    if n>3: print(p['id'],n)
print(len(props))
