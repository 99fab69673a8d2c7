//! A small in-process server speaking enough of the Redis protocol (RESP2) for the list and hash
//! commands a queue/storage backend needs. Semantics follow the Redis command reference.
use std::collections::{HashMap, VecDeque};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use crate::sim;

#[derive(Default)]
struct Db {
    lists: HashMap<Vec<u8>, VecDeque<Vec<u8>>>,
    hashes: HashMap<Vec<u8>, HashMap<Vec<u8>, Vec<u8>>>,
    strings: HashMap<Vec<u8>, Vec<u8>>,
}

pub enum R {
    Ok,
    Status(&'static str),
    Int(i64),
    Bulk(Option<Vec<u8>>),
    Arr(Vec<R>),
    Err(String),
    Nil,
}

fn enc(r: &R, out: &mut Vec<u8>) {
    match r {
        R::Ok => out.extend(b"+OK\r\n"),
        R::Status(s) => out.extend(format!("+{s}\r\n").bytes()),
        R::Int(i) => out.extend(format!(":{i}\r\n").bytes()),
        R::Bulk(None) => out.extend(b"$-1\r\n"),
        R::Bulk(Some(b)) => {
            out.extend(format!("${}\r\n", b.len()).bytes());
            out.extend(b);
            out.extend(b"\r\n");
        }
        R::Arr(v) => {
            out.extend(format!("*{}\r\n", v.len()).bytes());
            for x in v {
                enc(x, out);
            }
        }
        R::Err(e) => out.extend(format!("-{e}\r\n").bytes()),
        R::Nil => out.extend(b"*-1\r\n"),
    }
}

fn int(b: &[u8]) -> Result<i64, R> {
    std::str::from_utf8(b)
        .ok()
        .and_then(|s| s.parse().ok())
        .ok_or_else(|| R::Err("ERR value is not an integer or out of range".into()))
}

/// Redis index arithmetic for LRANGE/LTRIM: inclusive [s, e], negative from the end.
fn range(len: usize, s: i64, e: i64) -> Option<(usize, usize)> {
    let n = len as i128;
    let mut s = s as i128;
    let mut e = e as i128;
    if s < 0 {
        s += n;
    }
    if e < 0 {
        e += n;
    }
    if s < 0 {
        s = 0;
    }
    if e >= n {
        e = n - 1;
    }
    if s > e || s >= n {
        return None;
    }
    Some((s as usize, e as usize))
}

const WRONG: &str = "WRONGTYPE Operation against a key holding the wrong kind of value";

impl Db {
    fn exec(&mut self, a: &[Vec<u8>]) -> R {
        match self.exec2(a) {
            Ok(r) => r,
            Err(r) => r,
        }
    }
    fn is_hash(&self, k: &[u8]) -> bool {
        self.hashes.contains_key(k) || self.strings.contains_key(k)
    }
    fn is_list(&self, k: &[u8]) -> bool {
        self.lists.contains_key(k) || self.strings.contains_key(k)
    }
    fn lpop(&mut self, k: &[u8], left: bool) -> Option<Vec<u8>> {
        let q = self.lists.get_mut(k)?;
        let r = if left { q.pop_front() } else { q.pop_back() };
        if q.is_empty() {
            self.lists.remove(k);
        }
        r
    }
    fn lput(&mut self, k: &[u8], v: Vec<u8>, left: bool) -> i64 {
        let q = self.lists.entry(k.to_vec()).or_default();
        if left {
            q.push_front(v)
        } else {
            q.push_back(v)
        }
        q.len() as i64
    }
    fn exec2(&mut self, a: &[Vec<u8>]) -> Result<R, R> {
        let cmd = String::from_utf8_lossy(&a[0]).to_uppercase();
        let need = |n: usize| {
            if a.len() < n {
                Err(R::Err(format!("ERR wrong number of arguments for '{}' command", cmd.to_lowercase())))
            } else {
                Ok(())
            }
        };
        let list_cmd = cmd.starts_with('L') || cmd.starts_with("RP");
        if list_cmd && a.len() > 1 && self.is_hash(&a[1]) {
            return Err(R::Err(WRONG.into()));
        }
        if cmd.starts_with('H') && a.len() > 1 && self.is_list(&a[1]) {
            return Err(R::Err(WRONG.into()));
        }
        Ok(match cmd.as_str() {
            "PING" => R::Status("PONG"),
            "SELECT" | "AUTH" | "CLIENT" | "WATCH" | "UNWATCH" => R::Ok,
            "ECHO" => R::Bulk(Some(a[1].clone())),
            "LPUSH" | "RPUSH" => {
                need(3)?;
                let mut n = 0;
                for v in &a[2..] {
                    n = self.lput(&a[1], v.clone(), cmd == "LPUSH");
                }
                R::Int(n)
            }
            "LPOP" | "RPOP" => {
                need(2)?;
                let left = cmd == "LPOP";
                if a.len() > 2 {
                    let n = int(&a[2])?;
                    if !self.lists.contains_key(&a[1]) {
                        return Ok(R::Nil);
                    }
                    let mut v = vec![];
                    for _ in 0..n {
                        match self.lpop(&a[1], left) {
                            Some(x) => v.push(R::Bulk(Some(x))),
                            None => break,
                        }
                    }
                    R::Arr(v)
                } else {
                    R::Bulk(self.lpop(&a[1], left))
                }
            }
            "LMOVE" | "RPOPLPUSH" => {
                need(3)?;
                let (f, t) = if cmd == "LMOVE" {
                    need(5)?;
                    let d = |b: &[u8]| match String::from_utf8_lossy(b).to_uppercase().as_str() {
                        "LEFT" => Ok(true),
                        "RIGHT" => Ok(false),
                        _ => Err(R::Err("ERR syntax error".into())),
                    };
                    (d(&a[3])?, d(&a[4])?)
                } else {
                    (false, true)
                };
                if self.is_hash(&a[2]) {
                    return Err(R::Err(WRONG.into()));
                }
                match self.lpop(&a[1], f) {
                    None => R::Bulk(None),
                    Some(v) => {
                        self.lput(&a[2], v.clone(), t);
                        R::Bulk(Some(v))
                    }
                }
            }
            "LRANGE" => {
                need(4)?;
                let (s, e) = (int(&a[2])?, int(&a[3])?);
                let q = self.lists.get(&a[1]);
                let v = q.and_then(|q| range(q.len(), s, e).map(|(s, e)| q.range(s..=e).cloned().collect::<Vec<_>>()));
                R::Arr(v.unwrap_or_default().into_iter().map(|x| R::Bulk(Some(x))).collect())
            }
            "LTRIM" => {
                need(4)?;
                let (s, e) = (int(&a[2])?, int(&a[3])?);
                if let Some(q) = self.lists.get_mut(&a[1]) {
                    match range(q.len(), s, e) {
                        None => {
                            self.lists.remove(&a[1]);
                        }
                        Some((s, e)) => *q = q.range(s..=e).cloned().collect(),
                    }
                }
                R::Ok
            }
            "LLEN" => {
                need(2)?;
                R::Int(self.lists.get(&a[1]).map_or(0, |q| q.len() as i64))
            }
            "LINDEX" => {
                need(3)?;
                let i = int(&a[2])?;
                let r = self.lists.get(&a[1]).and_then(|q| {
                    let i = if i < 0 { q.len() as i64 + i } else { i };
                    if i < 0 { None } else { q.get(i as usize).cloned() }
                });
                R::Bulk(r)
            }
            "LREM" => {
                need(4)?;
                let n = int(&a[2])?;
                let mut removed = 0i64;
                if let Some(q) = self.lists.get_mut(&a[1]) {
                    let lim = if n == 0 { i64::MAX } else { n.abs() };
                    if n >= 0 {
                        q.retain(|x| {
                            if *x == a[3] && removed < lim {
                                removed += 1;
                                false
                            } else {
                                true
                            }
                        });
                    } else {
                        let mut i = q.len();
                        while i > 0 {
                            i -= 1;
                            if q[i] == a[3] && removed < lim {
                                q.remove(i);
                                removed += 1;
                            }
                        }
                    }
                    if q.is_empty() {
                        self.lists.remove(&a[1]);
                    }
                }
                R::Int(removed)
            }
            "LPOS" => {
                need(3)?;
                match self.lists.get(&a[1]).and_then(|q| q.iter().position(|x| *x == a[2])) {
                    Some(i) => R::Int(i as i64),
                    None => R::Bulk(None),
                }
            }
            "HSET" | "HMSET" => {
                need(4)?;
                let h = self.hashes.entry(a[1].clone()).or_default();
                let mut n = 0;
                for kv in a[2..].chunks(2) {
                    if kv.len() < 2 {
                        return Err(R::Err("ERR wrong number of arguments for 'hset' command".into()));
                    }
                    if h.insert(kv[0].clone(), kv[1].clone()).is_none() {
                        n += 1;
                    }
                }
                if cmd == "HSET" { R::Int(n) } else { R::Ok }
            }
            "HSETNX" => {
                need(4)?;
                let h = self.hashes.entry(a[1].clone()).or_default();
                if h.contains_key(&a[2]) {
                    R::Int(0)
                } else {
                    h.insert(a[2].clone(), a[3].clone());
                    R::Int(1)
                }
            }
            "HGET" => {
                need(3)?;
                R::Bulk(self.hashes.get(&a[1]).and_then(|h| h.get(&a[2]).cloned()))
            }
            "HMGET" => {
                need(3)?;
                let h = self.hashes.get(&a[1]);
                R::Arr(a[2..].iter().map(|k| R::Bulk(h.and_then(|h| h.get(k).cloned()))).collect())
            }
            "HGETALL" => {
                need(2)?;
                let mut v = vec![];
                if let Some(h) = self.hashes.get(&a[1]) {
                    for (k, x) in h {
                        v.push(R::Bulk(Some(k.clone())));
                        v.push(R::Bulk(Some(x.clone())));
                    }
                }
                R::Arr(v)
            }
            "HEXISTS" => {
                need(3)?;
                R::Int(self.hashes.get(&a[1]).map_or(0, |h| h.contains_key(&a[2]) as i64))
            }
            "HLEN" => {
                need(2)?;
                R::Int(self.hashes.get(&a[1]).map_or(0, |h| h.len() as i64))
            }
            "HDEL" => {
                need(3)?;
                let mut n = 0;
                if let Some(h) = self.hashes.get_mut(&a[1]) {
                    for k in &a[2..] {
                        n += h.remove(k).is_some() as i64;
                    }
                    if h.is_empty() {
                        self.hashes.remove(&a[1]);
                    }
                }
                R::Int(n)
            }
            "SET" => {
                need(3)?;
                self.lists.remove(&a[1]);
                self.hashes.remove(&a[1]);
                self.strings.insert(a[1].clone(), a[2].clone());
                R::Ok
            }
            "GET" => {
                need(2)?;
                R::Bulk(self.strings.get(&a[1]).cloned())
            }
            "DEL" | "UNLINK" => {
                let mut n = 0;
                for k in &a[1..] {
                    n += (self.lists.remove(k).is_some()
                        || self.hashes.remove(k).is_some()
                        || self.strings.remove(k).is_some()) as i64;
                }
                R::Int(n)
            }
            "EXISTS" => {
                let mut n = 0;
                for k in &a[1..] {
                    n += (self.lists.contains_key(k) || self.hashes.contains_key(k) || self.strings.contains_key(k)) as i64;
                }
                R::Int(n)
            }
            "FLUSHALL" | "FLUSHDB" => {
                *self = Db::default();
                R::Ok
            }
            _ => return Err(R::Err(format!("ERR unknown command '{cmd}'"))),
        })
    }
}

fn read_cmd(r: &mut BufReader<UnixStream>) -> std::io::Result<Option<Vec<Vec<u8>>>> {
    let mut line = String::new();
    if r.read_line(&mut line)? == 0 {
        return Ok(None);
    }
    let bad = || std::io::Error::new(std::io::ErrorKind::InvalidData, "bad request");
    let n: usize = line.trim_end().strip_prefix('*').and_then(|x| x.parse().ok()).ok_or_else(bad)?;
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        line.clear();
        r.read_line(&mut line)?;
        let len: usize = line.trim_end().strip_prefix('$').and_then(|x| x.parse().ok()).ok_or_else(bad)?;
        let mut b = vec![0u8; len + 2];
        r.read_exact(&mut b)?;
        b.truncate(len);
        v.push(b);
    }
    Ok(Some(v))
}

/// Injected failures: how many data commands still succeed before one fails (-1: none fails), and
/// how: 0 error reply, 1 "still loading" reply, 2 the connection is closed. The command that fails
/// has no effect.
static FAIL_IN: AtomicI64 = AtomicI64::new(-1);
static FAIL_KIND: AtomicU64 = AtomicU64::new(0);
pub fn fail_in(n: u64, kind: u64) {
    FAIL_KIND.store(kind, SeqCst);
    FAIL_IN.store(n as i64, SeqCst);
}
/// Stop failing; answers whether the failure happened.
pub fn fail_off() -> bool {
    FAIL_IN.swap(-1, SeqCst) == -2
}
fn fails_now(cmd: &str) -> bool {
    if matches!(cmd, "PING" | "SELECT" | "AUTH" | "CLIENT" | "ECHO" | "HELLO" | "MULTI" | "DISCARD" | "WATCH" | "UNWATCH") {
        return false;
    }
    let r = FAIL_IN.try_update(SeqCst, SeqCst, |n| match n {
        0 => Some(-2),
        n if n > 0 => Some(n - 1),
        _ => None,
    });
    r == Ok(0)
}

fn client(s: UnixStream, db: Arc<Mutex<Db>>) {
    let mut w = match s.try_clone() {
        Ok(w) => w,
        Err(_) => return,
    };
    let mut r = BufReader::new(s);
    let mut multi: Option<Vec<Vec<Vec<u8>>>> = None;
    while let Ok(Some(cmd)) = read_cmd(&mut r) {
        if cmd.is_empty() {
            continue;
        }
        let name = String::from_utf8_lossy(&cmd[0]).to_uppercase();
        let rep = match (name.as_str(), &mut multi) {
            (c, m) if (m.is_none() || c == "EXEC") && fails_now(c) => {
                *m = None;
                match FAIL_KIND.load(SeqCst) % 3 {
                    0 => R::Err("ERR injected failure".into()),
                    1 => R::Err("LOADING Redis is loading the dataset in memory".into()),
                    _ => return,
                }
            }
            ("MULTI", _) => {
                multi = Some(vec![]);
                R::Ok
            }
            ("DISCARD", _) => {
                multi = None;
                R::Ok
            }
            ("EXEC", m) => match m.take() {
                None => R::Err("ERR EXEC without MULTI".into()),
                Some(cmds) => {
                    let mut db = db.lock().unwrap();
                    R::Arr(cmds.iter().map(|c| db.exec(c)).collect())
                }
            },
            (_, Some(q)) => {
                q.push(cmd);
                R::Status("QUEUED")
            }
            _ => db.lock().unwrap().exec(&cmd),
        };
        let mut out = vec![];
        enc(&rep, &mut out);
        if w.write_all(&out).is_err() {
            return;
        }
    }
}

static N: AtomicU64 = AtomicU64::new(0);

/// scratch directory of this worker (created and removed by the runner)
pub fn scratch() -> String {
    std::env::var("AJV_SCRATCH").unwrap_or_else(|_| "/tmp".into())
}

/// Start a server; returns a URL for `redis::Client::open`.
pub fn serve() -> String {
    let path = format!("{}/r{}-{}.sock", scratch(), std::process::id(), N.fetch_add(1, SeqCst));
    let _ = std::fs::remove_file(&path);
    let l = UnixListener::bind(&path).expect("bind fake redis");
    let db = Arc::new(Mutex::new(Db::default()));
    sim::spawn_untracked(move || {
        for s in l.incoming() {
            match s {
                Ok(s) => {
                    let db = db.clone();
                    sim::spawn_untracked(move || client(s, db));
                }
                Err(_) => return,
            }
        }
    });
    format!("unix://{path}")
}
