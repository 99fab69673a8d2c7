//! Searches that need no engine: cron parsing, retry arithmetic, storage round trips, backends.
use serde_json::{json, Value};

use crate::monitor::Viol;
use crate::rng::Rng;
use crate::runner::*;

pub fn silent<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}
pub fn v1(prop: &str, kind: &str, msg: String) -> Viol {
    Viol { props: vec![prop.into()], kind: kind.into(), msg, t: 0 }
}

/// Arbitrary strings as cron expressions: never a panic; accepted exactly when the expression is one.
pub fn cron_part() -> Part {
    fn gen(r: &mut Rng, _: Tier) -> Value {
        let field = |r: &mut Rng| -> String {
            match r.below(12) {
                0 => "*".into(),
                1 => format!("{}", r.below(70)),
                2 => format!("{}-{}", r.below(70), r.below(70)),
                3 => format!("*/{}", r.below(70)),
                4 => format!("{},{}", r.below(40), r.below(40)),
                5 => format!("{}-{}/{}", r.below(30), r.below(60), r.below(9)),
                6 => r.pick(&["Mon", "MON-FRI", "jan", "Dec", "Sunday", "?", "L", "W"]).to_string(),
                7 => format!("{}", r.next()),
                8 => format!("{}", 1960 + r.below(200)),
                9 => r.text(3),
                _ => "*".into(),
            }
        };
        let s = match r.below(10) {
            0 => r.text(24),
            1 => r.pick(&["@daily", "@hourly", "@yearly", "@weekly", "@monthly", "@annually", "@reboot", "", " ", "\n"]).to_string(),
            _ => {
                let n = *r.pick(&[7usize, 7, 6, 6, 6, 5, 8, 3, 1]);
                (0..n).map(|_| field(r)).collect::<Vec<_>>().join(if r.chance(90) { " " } else { "  " })
            }
        };
        json!({"expr": s, "max": if r.chance(50) { Some(r.range(-2, 5)) } else { None }})
    }
    fn run(v: &Value) -> Verdict {
        use std::str::FromStr;
        let mut o = Verdict::default();
        let Some(e) = v["expr"].as_str() else { return o };
        let max = v["max"].as_i64().map(|x| x as i32);
        let valid = silent(|| cron::Schedule::from_str(e).is_ok());
        let got = silent(|| {
            aj::job::JobType::new_cron(e, aj::job::CronContext { tick_number: 0, max_repeat: max, end_at: None })
        });
        o.stats.insert("cron_strings".into(), 1);
        match (valid, got) {
            (Err(_), _) => {} // the cron library itself panics: not this code
            (Ok(_), Err(p)) => o.viols.push(v1("C04", "cron-parse", format!("new_cron({e:?}) panicked: {p}"))),
            (Ok(true), Ok(Ok(t))) => {
                o.nontrivial = true;
                o.stats.insert("cron_valid".into(), 1);
                let now = chrono::Utc::now();
                let s = cron::Schedule::from_str(e).unwrap();
                match t {
                    aj::job::JobType::Cron(x, slot, n, c) => {
                        if x != e || n != 1 || c.max_repeat != max {
                            o.viols.push(v1("C04", "cron-parse", format!("new_cron({e:?}) stored {x:?} n={n} {c:?}")));
                        }
                        // the first slot after the call (the clock moves between both looks)
                        let before = s.after(&(now - chrono::Duration::seconds(5))).take_while(|t| *t <= now).any(|t| t == slot);
                        if let Some(next) = s.after(&now).next() {
                            if slot != next && !before {
                                o.viols.push(v1("C04", "cron-slot", format!("new_cron({e:?}) first slot {slot}, expected {next}")));
                            }
                        }
                    }
                    other => o.viols.push(v1("C04", "cron-parse", format!("new_cron({e:?}) gave {other:?}"))),
                }
            }
            (Ok(false), Ok(Err(_))) => {
                o.nontrivial = true;
                o.stats.insert("cron_invalid".into(), 1);
            }
            (Ok(val), Ok(g)) => o.viols.push(v1("C04", "cron-parse", format!("new_cron({e:?}): valid={val}, accepted={}", g.is_ok()))),
        }
        o
    }
    Part { name: "cron-strings", gen, run, quick: 20000, weight: 1 }
}

fn make_ids(threads: usize, n: usize) -> Vec<String> {
    use crate::jobs::*;
    use aj::BackgroundJob;
    let hs: Vec<_> = (0..threads.max(1))
        .map(|_| {
            std::thread::spawn(move || {
                (0..n)
                    .map(|i| {
                        let p = Payload { tag: 1, ..Default::default() };
                        if i % 2 == 0 {
                            aj::Job::new(Alpha::make(p)).id().to_string()
                        } else {
                            Beta::make(p).job().id().to_string()
                        }
                    })
                    .collect::<Vec<_>>()
            })
        })
        .collect();
    hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
}
/// `ajv ids THREADS N`: ids of a process of their own
pub fn print_ids(threads: usize, n: usize) {
    for id in make_ids(threads, n) {
        println!("{id:?}");
    }
}

/// Ids that the library gives out are never given out twice: not to other threads, and not by
/// another process working on the same backend.
pub fn ids_part() -> Part {
    fn gen(r: &mut Rng, _: Tier) -> Value {
        json!({"procs": r.urange(1, 3), "threads": r.urange(1, 4), "n": r.urange(1, 600)})
    }
    fn run(v: &Value) -> Verdict {
        let _waiting = crate::forked::Waiting::new();
        let mut o = Verdict::default();
        let (procs, threads, n) = (v["procs"].as_u64().unwrap_or(0), v["threads"].as_u64().unwrap_or(1), v["n"].as_u64().unwrap_or(0));
        if procs > 8 || threads > 16 || n > 10_000 {
            return o;
        }
        let exe = std::env::current_exe().unwrap();
        let kids: Vec<_> = (0..procs)
            .map(|_| {
                std::process::Command::new(&exe)
                    .args(["ids", &threads.to_string(), &n.to_string()])
                    .stdout(std::process::Stdio::piped())
                    .spawn()
            })
            .collect();
        let mut seen = std::collections::HashSet::new();
        let mut total = 0u64;
        for k in kids {
            let Ok(out) = k.and_then(|k| k.wait_with_output()) else {
                o.inconclusive = Some("no answer from the process".into());
                return o;
            };
            let s = String::from_utf8_lossy(&out.stdout).into_owned();
            let got: Vec<&str> = s.lines().collect();
            if got.len() as u64 != threads * n {
                o.inconclusive = Some("incomplete answer of the process".into());
                return o;
            }
            for id in got {
                total += 1;
                if !seen.insert(id.to_string()) {
                    o.viols.push(v1("C02", "own-id", format!("the id {id} was given to two jobs")));
                    return o;
                }
            }
        }
        o.stats.insert("ids".into(), total);
        o.nontrivial = total > 1;
        o
    }
    Part { name: "own-ids", gen, run, quick: 60, weight: 1 }
}
