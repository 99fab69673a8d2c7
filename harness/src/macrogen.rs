//! C19: generated programs that use the `#[job]` macro, compiled with rustc against the libraries
//! the harness itself was built with, and run.
use std::collections::BTreeMap;
use std::process::Command;
use std::sync::OnceLock;
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::monitor::Viol;
use crate::rng::Rng;
use crate::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Arg {
    name: String,
    ty: usize,
    mutable: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CallSpec {
    /// 0 direct, 1 run, 2 just_run, 3 run_with_context, 4 just_run_with_context
    entry: u8,
    vals: Vec<u64>,
    /// of the given context: 0 plain, 1 scheduled in the past, 2 shortly ahead, 3 with a retry policy
    ctx: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FnSpec {
    name: String,
    asy: bool,
    vis: u8,
    ret: usize,
    module: bool,
    trailing_comma: bool,
    attr: bool,
    args: Vec<Arg>,
    calls: Vec<CallSpec>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prog {
    fns: Vec<FnSpec>,
}

const TYPES: &[&str] = &[
    "u8",
    "i64",
    "u64",
    "bool",
    "char",
    "String",
    "Option<String>",
    "Vec<u32>",
    "(i32, String)",
    "std::collections::BTreeMap<String, u8>",
    "[u8; 3]",
    "f64",
    "Item",
    "Kind",
    "Box<Item>",
    "Vec<Item>",
    "Option<(bool, Kind)>",
    "()",
];
const RETS: &[(&str, &str)] = &[
    ("", "()"),
    (" -> ()", "()"),
    (" -> u32", "7"),
    (" -> String", "\"out\".to_string()"),
    (" -> Result<u32, String>", "Err(\"no\".to_string())"),
    (" -> Option<Item>", "None"),
    (" -> Vec<(u8, bool)>", "vec![(1, true)]"),
    (" -> Result<(), Kind>", "Ok(())"),
];

fn text(seed: u64) -> String {
    let pool = ["", "a", "hello world", "\\\"quoted\\\"", "\\u{2603} snow", "line\\nbreak", "{}", "0", "null", "\\\\"];
    format!("{}{}", pool[(seed % pool.len() as u64) as usize], seed / 16 % 1000)
}
fn val(ty: usize, s: u64) -> String {
    let s2 = s / 7;
    let item = |s: u64| format!("Item {{ a: {}, b: \"{}\".to_string() }}", s as i32, text(s / 3));
    let kind = |s: u64| match s % 3 {
        0 => "Kind::Unit".to_string(),
        1 => format!("Kind::Tup({}, {})", s as u8, s % 2 == 0),
        _ => format!("Kind::Rec {{ x: \"{}\".to_string() }}", text(s / 5)),
    };
    match TYPES[ty % TYPES.len()] {
        "u8" => format!("{}u8", s as u8),
        "i64" => match s % 4 {
            0 => "i64::MIN".into(),
            1 => "i64::MAX".into(),
            _ => format!("{}i64", s as i32),
        },
        "u64" => match s % 4 {
            0 => "u64::MAX".into(),
            _ => format!("{s}u64"),
        },
        "bool" => format!("{}", s % 2 == 0),
        "char" => ["'a'", "'\\n'", "'\\u{1F980}'", "'\"'", "'\\''"][(s % 5) as usize].into(),
        "String" => format!("\"{}\".to_string()", text(s)),
        "Option<String>" => {
            if s % 3 == 0 {
                "None".into()
            } else {
                format!("Some(\"{}\".to_string())", text(s2))
            }
        }
        "Vec<u32>" => format!("vec!{:?}", (0..s % 5).map(|i| (s2 as u32).wrapping_mul(i as u32 + 1)).collect::<Vec<u32>>()),
        "(i32, String)" => format!("({}, \"{}\".to_string())", s as i32, text(s2)),
        "std::collections::BTreeMap<String, u8>" => {
            let v: Vec<String> = (0..s % 4).map(|i| format!("(\"{}\".to_string(), {}u8)", text(s2 + i * 17), (s2 + i) as u8)).collect();
            format!("[{}].into_iter().collect()", v.join(", "))
        }
        "[u8; 3]" => format!("[{}, {}, {}]", s as u8, s2 as u8, (s2 / 3) as u8),
        "f64" => format!("{}.5f64", s as i16),
        "Item" => item(s),
        "Kind" => kind(s),
        "Box<Item>" => format!("Box::new({})", item(s)),
        "Vec<Item>" => format!("vec![{}]", (0..s % 3).map(|i| item(s2 + i)).collect::<Vec<_>>().join(", ")),
        "Option<(bool, Kind)>" => {
            if s % 3 == 0 {
                "None".into()
            } else {
                format!("Some(({}, {}))", s % 2 == 0, kind(s2))
            }
        }
        _ => "()".into(),
    }
}

fn pascal(name: &str) -> String {
    name.split('_').filter(|w| !w.is_empty()).map(|w| format!("{}{}", w[..1].to_uppercase(), &w[1..])).collect()
}

fn gen_prog(r: &mut Rng, _t: Tier) -> Value {
    const WORDS: &[&str] = &["send", "mail", "make", "big", "report", "x", "resize", "image", "user", "sync", "of", "total", "a", "zoom", "do", "queue", "item"];
    const SPECIAL: &[&str] = &["run", "just_run", "new", "execute", "run_with_context", "context", "msg"];
    const NAMES: &[&str] =
        &["a", "b", "name", "value", "context", "_context", "msg", "job_id", "data", "x", "count", "item", "job", "_unused", "r#type", "queue_name", "output", "id", "config", "ctx", "aj_context", "new"];
    let n = 3 + r.below(8);
    let mut fns: Vec<FnSpec> = vec![];
    let mut taken: Vec<String> = vec![];
    for i in 0..n {
        let name = if r.chance(12) {
            r.pick(SPECIAL).to_string()
        } else {
            let k = 1 + r.below(3);
            (0..k).map(|_| *r.pick(WORDS)).collect::<Vec<_>>().join("_")
        };
        // unique job names: letters only, as the derived name is what identifies a queue
        let name = if taken.contains(&pascal(&name)) || ["do", "of"].contains(&name.as_str()) {
            format!("{}_z{}", name, (b'a' + i as u8) as char)
        } else {
            name
        };
        if taken.contains(&pascal(&name)) {
            continue;
        }
        taken.push(pascal(&name));
        let na = match r.weighted(&[18, 30, 25, 15, 12]) {
            4 => 4 + r.below(5),
            k => k as u64,
        };
        let mut args: Vec<Arg> = vec![];
        for _ in 0..na {
            let nm = if r.chance(5) { name.clone() } else { r.pick(NAMES).to_string() };
            let nm = if args.iter().any(|a| a.name == nm) { format!("p{}", args.len()) } else { nm };
            // same types next to each other make swapped arguments visible
            let ty = if !args.is_empty() && r.chance(40) { args[args.len() - 1].ty } else { r.below(TYPES.len() as u64) as usize };
            args.push(Arg { name: nm, ty, mutable: r.chance(25) });
        }
        let mut calls = vec![];
        for e in 0..5u8 {
            for _ in 0..1 + r.below(2) {
                calls.push(CallSpec { entry: e, vals: args.iter().map(|_| r.next() >> 20).collect(), ctx: r.below(4) as u8 });
            }
        }
        fns.push(FnSpec {
            name,
            asy: r.chance(50),
            vis: r.below(3) as u8,
            ret: r.below(RETS.len() as u64) as usize,
            module: r.chance(30),
            trailing_comma: r.chance(20),
            attr: r.chance(25),
            args,
            calls,
        });
    }
    serde_json::to_value(Prog { fns }).unwrap()
}

fn source(p: &Prog) -> (String, usize) {
    let mut defs = String::new();
    let mut mods = String::new();
    let mut main = String::new();
    let mut total = 0;
    for (fi, f) in p.fns.iter().enumerate() {
        let vis = if f.module { "pub " } else { ["", "pub ", "pub(crate) "][f.vis as usize % 3] };
        let params: Vec<String> =
            f.args.iter().map(|a| format!("{}{}: {}", if a.mutable { "mut " } else { "" }, a.name, TYPES[a.ty % TYPES.len()])).collect();
        let (ret, out) = RETS[f.ret % RETS.len()];
        let tuple = |v: Vec<String>| if v.is_empty() { "()".to_string() } else { format!("({},)", v.join(", ")) };
        let names: Vec<String> = f.args.iter().map(|a| format!("&{}", a.name)).collect();
        let mut body = format!("    crate::record__({fi}, format!(\"{{:?}}\", {}));\n", tuple(names));
        for a in &f.args {
            if a.mutable {
                body.push_str(&format!("    let _ = std::mem::replace(&mut {}, {});\n", a.name, val(a.ty, 99)));
            }
        }
        if f.asy {
            body.push_str("    crate::pause__().await;\n");
        }
        let attr = if f.attr { "/// A documented job.\n#[allow(clippy::all)]\n" } else { "" };
        let def = format!(
            "{attr}#[job]\n{vis}{}fn {}({}{}){ret} {{\n{body}    {out}\n}}\n\n",
            if f.asy { "async " } else { "" },
            f.name,
            params.join(", "),
            if f.trailing_comma && !params.is_empty() { "," } else { "" },
        );
        let path = if f.module {
            mods.push_str(&format!("pub mod m{fi} {{\n#[allow(unused_imports)]\nuse crate::{{Item, Kind}};\nuse aj::job;\n{def}}}\n"));
            format!("m{fi}::{}", f.name)
        } else {
            defs.push_str(&def);
            format!("crate::{}", f.name)
        };
        let st = format!("{path}::Job{}", pascal(&f.name));
        for (k, c) in f.calls.iter().enumerate() {
            total += 1;
            let vals: Vec<String> = f.args.iter().enumerate().map(|(i, a)| val(a.ty, c.vals.get(i).copied().unwrap_or(0))).collect();
            let typed: Vec<String> = f.args.iter().zip(&vals).map(|(a, v)| format!("{{ let v: {} = {v}; v }}", TYPES[a.ty % TYPES.len()])).collect();
            let call_args = typed.join(", ");
            main.push_str(&format!("    expect__({fi}, format!(\"{{:?}}\", {}));\n", tuple(typed.iter().map(|t| format!("&{t}")).collect())));
            let id = format!("ctx-{fi}-{k}");
            let ctx = format!("mk_ctx__(\"{id}\", {})", c.ctx);
            let with_ctx = if call_args.is_empty() { ctx.clone() } else { format!("{call_args}, {ctx}") };
            match c.entry {
                0 => main.push_str(&format!("    let _ = {path}({call_args}){};\n", if f.asy { ".await" } else { "" })),
                1 => main.push_str(&format!(
                    "    match {path}::run({call_args}).await {{\n        Ok(id) => checks.push(Box::pin(check_id::<{st}>({fi}, id, 0))),\n        Err(e) => problem__(format!(\"{}::run: {{e:?}}\")),\n    }}\n",
                    f.name
                )),
                2 => main.push_str(&format!("    {path}::just_run({call_args});\n")),
                3 => main.push_str(&format!(
                    "    match {path}::run_with_context({with_ctx}).await {{\n        Ok(id) if id == \"{id}\" => checks.push(Box::pin(check_id::<{st}>({fi}, id, {}))),\n        r => problem__(format!(\"{}::run_with_context: {{r:?}}\")),\n    }}\n",
                    c.ctx, f.name
                )),
                _ => main.push_str(&format!(
                    "    {path}::just_run_with_context({with_ctx});\n    checks.push(Box::pin(check_id::<{st}>({fi}, \"{id}\".to_string(), {})));\n",
                    c.ctx
                )),
            }
        }
    }
    let names: Vec<String> = p.fns.iter().map(|f| format!("{:?}", f.name)).collect();
    (
        PRELUDE.replace("@NAMES@", &names.join(", ")).replace("@TOTAL@", &total.to_string()).replace("@DEFS@", &defs).replace("@MODS@", &mods).replace("@MAIN@", &main),
        total,
    )
}

const PRELUDE: &str = r#"#![allow(dead_code, unused_variables, unused_imports, unused_assignments, clippy::all)]
use aj::job;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Item {
    a: i32,
    b: String,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Unit,
    Tup(u8, bool),
    Rec { x: String },
}
@DEFS@
@MODS@
static NAMES: &[&str] = &[@NAMES@];
static RECORDED: std::sync::Mutex<Vec<(usize, String)>> = std::sync::Mutex::new(Vec::new());
static EXPECTED: std::sync::Mutex<Vec<(usize, String)>> = std::sync::Mutex::new(Vec::new());
static PROBLEMS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
pub fn record__(f: usize, args: String) {
    RECORDED.lock().unwrap().push((f, args));
}
fn expect__(f: usize, args: String) {
    EXPECTED.lock().unwrap().push((f, args));
}
fn problem__(s: String) {
    PROBLEMS.lock().unwrap().push(s);
}
pub async fn pause__() {
    actix_rt::time::sleep(std::time::Duration::from_millis(1)).await
}
fn mk_ctx__(id: &str, kind: u8) -> aj::JobContext {
    let mut c = aj::JobContext::new(id.to_string());
    let now = aj::chrono::Utc::now();
    match kind {
        1 => c.job_type = aj::job::JobType::new_schedule(now - aj::chrono::Duration::seconds(5)),
        2 => c.job_type = aj::job::JobType::new_schedule(now + aj::chrono::Duration::milliseconds(150)),
        3 => c.retry = Some(aj::job::Retry::default()),
        _ => {}
    }
    c
}
async fn check_id<T>(f: usize, id: String, kind: u8)
where
    T: aj::Executable + Unpin + Send + Sync + Clone + Serialize + serde::de::DeserializeOwned + 'static,
{
    let Some(j) = aj::AJ::get_job::<T>(&id).await else {
        return problem__(format!("{}: job {id} is not found", NAMES[f]));
    };
    let c = &j.context;
    if c.job_id != id || c.run_count != 1 || c.job_status != aj::job::JobStatus::Finished {
        problem__(format!("{}: job {id} is {:?} as {:?} after {} runs", NAMES[f], c.job_status, c.job_id, c.run_count));
    }
    let ok = match kind {
        1 | 2 => matches!(c.job_type, aj::job::JobType::ScheduledAt(_)),
        3 => c.retry.is_some(),
        _ => matches!(c.job_type, aj::job::JobType::Normal) && c.retry.is_none(),
    };
    if !ok {
        problem__(format!("{}: job {id} did not get the given context: {c:?}", NAMES[f]));
    }
}
#[actix_rt::main]
async fn main() {
    aj::AJ::quick_start();
    let mut checks: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = ()>>>> = vec![];
@MAIN@
    let t0 = std::time::Instant::now();
    while RECORDED.lock().unwrap().len() < @TOTAL@ && t0.elapsed() < std::time::Duration::from_secs(30) {
        actix_rt::time::sleep(std::time::Duration::from_millis(5)).await;
    }
    actix_rt::time::sleep(std::time::Duration::from_millis(150)).await;
    let mut a = RECORDED.lock().unwrap().clone();
    let mut b = EXPECTED.lock().unwrap().clone();
    a.sort();
    b.sort();
    if a != b {
        let extra: Vec<_> = a.iter().filter(|x| !b.contains(x)).take(2).map(|x| (NAMES[x.0], &x.1)).collect();
        let missing: Vec<_> = b.iter().filter(|x| !a.contains(x)).take(2).map(|x| (NAMES[x.0], &x.1)).collect();
        problem__(format!("{} calls recorded, {} expected; missing {missing:?}, not expected {extra:?}", a.len(), b.len()));
    }
    for c in checks {
        c.await;
    }
    for p in PROBLEMS.lock().unwrap().iter() {
        println!("PROBLEM {}", p.replace('\n', " "));
    }
    println!("DONE");
    std::process::exit(0);
}
"#;

/// The libraries the harness was built with, by crate name.
fn externs() -> Result<&'static BTreeMap<String, String>, String> {
    static E: OnceLock<Result<BTreeMap<String, String>, String>> = OnceLock::new();
    E.get_or_init(|| {
        let out = Command::new("cargo")
            .args(["build", "--offline", "--message-format=json"])
            .current_dir(env!("CARGO_MANIFEST_DIR"))
            .output()
            .map_err(|e| format!("cargo: {e}"))?;
        let mut m = BTreeMap::new();
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(j) = serde_json::from_str::<Value>(l) else { continue };
            if j["reason"] != "compiler-artifact" {
                continue;
            }
            let name = j["target"]["name"].as_str().unwrap_or("").replace('-', "_");
            if let Some(f) = j["filenames"].as_array().and_then(|a| a.iter().filter_map(|x| x.as_str()).find(|f| f.ends_with(".rlib"))) {
                m.insert(name, f.to_string());
            }
        }
        if m.contains_key("aj") && m.contains_key("serde") && m.contains_key("actix_rt") {
            Ok(m)
        } else {
            Err(format!("cargo did not list the libraries: {}", String::from_utf8_lossy(&out.stderr)))
        }
    })
    .as_ref()
    .map_err(|e| e.clone())
}

fn viol(kind: &str, msg: String) -> Viol {
    Viol { props: vec!["C19".into()], kind: kind.into(), msg, t: 0 }
}

fn run_prog(v: &Value) -> Verdict {
    let _waiting = crate::forked::Waiting::new();
    let Ok(p) = serde_json::from_value::<Prog>(v.clone()) else { return Verdict::default() };
    // shrunk cases have to stay inside the property: distinct, valid names
    let ident = |s: &str| {
        let s = s.strip_prefix("r#").unwrap_or(s);
        !s.is_empty() && s.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_') && !s.starts_with(|c: char| c.is_ascii_digit())
    };
    let mut seen = vec![];
    for f in &p.fns {
        if !ident(&f.name) || seen.contains(&pascal(&f.name)) || pascal(&f.name).is_empty() {
            return Verdict::default();
        }
        seen.push(pascal(&f.name));
        let mut an = vec![];
        for a in &f.args {
            if !ident(&a.name) || an.contains(&a.name) {
                return Verdict::default();
            }
            an.push(a.name.clone());
        }
    }
    let mut out = Verdict::default();
    let ext = match externs() {
        Ok(e) => e,
        Err(e) => {
            out.inconclusive = Some(e);
            return out;
        }
    };
    let dir = format!("{}/mg-{}", std::env::var("AJV_SCRATCH").unwrap_or("/tmp".into()), std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let (src, total) = source(&p);
    let (main, bin) = (format!("{dir}/main.rs"), format!("{dir}/main"));
    if std::fs::write(&main, src).is_err() {
        out.inconclusive = Some("cannot write the program".into());
        return out;
    }
    let mut cmd = Command::new("rustc");
    cmd.args(["--edition", "2021", "--crate-name", "main", "-C", "debuginfo=0", "-C", "codegen-units=4", "--error-format=short", &main, "-o", &bin]);
    cmd.args(["-L", &format!("dependency={}/target/debug/deps", env!("CARGO_MANIFEST_DIR"))]);
    for c in ["aj", "serde", "serde_json", "actix_rt"] {
        if let Some(f) = ext.get(c) {
            cmd.args(["--extern", &format!("{c}={f}")]);
        }
    }
    let o = match cmd.output() {
        Ok(o) => o,
        Err(e) => {
            out.inconclusive = Some(format!("rustc: {e}"));
            return out;
        }
    };
    out.stats.insert("programs".into(), 1);
    out.stats.insert("functions".into(), p.fns.len() as u64);
    out.stats.insert("calls".into(), total as u64);
    if !o.status.success() {
        let err = String::from_utf8_lossy(&o.stderr);
        let first: Vec<&str> = err.lines().filter(|l| l.contains("error")).take(3).collect();
        if first.is_empty() || err.contains("No space left") {
            out.inconclusive = Some(format!("rustc failed: {}", err.chars().take(300).collect::<String>()));
        } else {
            out.viols.push(viol("compile", format!("a program with the macro does not compile: {first:?}")));
        }
        let _ = std::fs::remove_dir_all(&dir);
        return out;
    }
    let child = Command::new(&bin).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn();
    let Ok(mut child) = child else {
        out.inconclusive = Some("cannot run the program".into());
        return out;
    };
    let t0 = Instant::now();
    let mut late = false;
    loop {
        match child.try_wait() {
            Ok(Some(_)) => break,
            _ if t0.elapsed() > Duration::from_secs(80) => {
                late = true;
                let _ = child.kill();
                break;
            }
            _ => std::thread::sleep(Duration::from_millis(3)),
        }
    }
    let o = child.wait_with_output();
    let _ = std::fs::remove_dir_all(&dir);
    let Ok(o) = o else {
        out.inconclusive = Some("no output".into());
        return out;
    };
    let text = String::from_utf8_lossy(&o.stdout);
    for l in text.lines() {
        if let Some(p) = l.strip_prefix("PROBLEM ") {
            out.viols.push(viol("call", p.to_string()));
        }
    }
    if !text.contains("DONE") {
        out.viols.push(viol(
            "call",
            format!(
                "the program {}: {}",
                if late { "hangs" } else { "died" },
                String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()
            ),
        ));
    }
    out.nontrivial = p.fns.iter().any(|f| f.args.len() >= 2) && total >= 5;
    out
}

pub fn part() -> Part {
    Part { name: "programs", gen: gen_prog, run: run_prog, quick: 40, weight: 1 }
}
