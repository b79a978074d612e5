//! Structured reporting: nested contexts, collections, blocked regions and captures as programs over scopes.
use crate::util::*;
use rand::prelude::*;
use rust_road_router::{report, report::*, report_silent};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Mutex;

const KEYS: [&str; 8] = ["k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"];

#[derive(Clone, Debug)]
enum Node {
    Report(usize, i64),
    Time(usize, usize, Vec<Node>),
    Ctx(usize, Vec<Node>),
    /// items and (blocked or capturing) scopes between them
    Col(usize, Vec<Node>),
    Item(Vec<Node>),
    Block(bool, Vec<Node>),
    Cap(bool, Vec<Node>),
    Thread(Vec<Node>),
    Catch(Vec<Node>),
    Throw,
}

struct Thrown;
type Log = Mutex<Vec<Value>>;

struct Pop<'a>(&'a Log);
impl Drop for Pop<'_> {
    fn drop(&mut self) {
        self.0.lock().unwrap().push(json!({"op": "pop"}));
    }
}

fn flat(v: &Value, path: &mut Vec<String>, out: &mut Vec<Value>) {
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                path.push(k.clone());
                entry(x, path, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(format!("#{}", i));
                entry(x, path, out);
                path.pop();
            }
        }
        _ => unreachable!(),
    }
}
fn entry(x: &Value, path: &mut Vec<String>, out: &mut Vec<Value>) {
    match x {
        Value::Object(_) => {
            out.push(json!([path, "o", 0]));
            flat(x, path, out);
        }
        Value::Array(_) => {
            out.push(json!([path, "c", 0]));
            flat(x, path, out);
        }
        Value::Number(n) if n.is_f64() => out.push(json!([path, if n.as_f64().unwrap() >= 0.0 { "t" } else { "?" }, 0])),
        Value::Number(n) => out.push(json!([path, "v", n])),
        _ => out.push(json!([path, "?", 0])),
    }
}
fn flatten(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    flat(v, &mut vec![], &mut out);
    out
}

fn reported(c: CaptureReportingContextGuard, log: &Log) {
    let res: Option<BTreeMap<&'static str, ReportingValue>> = c.reported();
    let none = res.is_none();
    let tree = serde_json::to_value(res.unwrap_or_default()).unwrap();
    log.lock().unwrap().push(json!({"op": "take", "none": none, "res": flatten(&tree)}));
}

fn exec(ps: &[Node], log: &Log) {
    for p in ps {
        let put = |v: Value| log.lock().unwrap().push(v);
        match p {
            Node::Report(k, v) => {
                put(json!({"op": "rep", "k": KEYS[*k], "v": v, "t": "v"}));
                if v % 2 == 0 {
                    report!(KEYS[*k], *v)
                } else {
                    report_silent!(KEYS[*k], *v)
                }
            }
            Node::Time(k, how, b) => {
                let x = match how {
                    0 => silent_report_time_with_key(KEYS[*k], || { exec(b, log); *k }),
                    1 => report_time_with_key("x", KEYS[*k], || { exec(b, log); *k }),
                    2 => silent_report_time(|| { exec(b, log); *k }),
                    _ => report_time("x", || { exec(b, log); *k }),
                };
                assert_eq!(x, *k, "the measured function's value");
                put(json!({"op": "rep", "k": if *how < 2 { KEYS[*k] } else { "running_time_ms" }, "v": 0, "t": "t"}));
            }
            Node::Ctx(k, b) => {
                put(json!({"op": "ctx", "k": KEYS[*k]}));
                let _p = Pop(log);
                let _g = push_context(KEYS[*k]);
                exec(b, log);
            }
            Node::Col(k, b) => {
                put(json!({"op": "col", "k": KEYS[*k]}));
                let _p = Pop(log);
                let mut g = push_collection_context(KEYS[*k]);
                for x in b {
                    match x {
                        Node::Item(b) => {
                            put(json!({"op": "item"}));
                            let _p = Pop(log);
                            let _g = g.push_collection_item();
                            exec(b, log);
                        }
                        x => exec(std::slice::from_ref(x), log),
                    }
                }
            }
            Node::Item(_) => unreachable!(),
            Node::Block(closure, b) => {
                put(json!({"op": "block"}));
                let _p = Pop(log);
                if *closure {
                    without_reporting(|| exec(b, log));
                } else {
                    let _g = block_reporting();
                    exec(b, log);
                }
            }
            Node::Cap(take, b) => {
                put(json!({"op": "cap"}));
                let _p = Pop(log);
                let c = capture_reporting();
                exec(b, log);
                if *take {
                    reported(c, log);
                }
            }
            Node::Thread(b) => {
                put(json!({"op": "off"}));
                let _p = Pop(log);
                std::thread::scope(|s| {
                    if let Err(p) = s.spawn(|| exec(b, log)).join() {
                        resume_unwind(p)
                    }
                });
            }
            Node::Catch(b) => {
                if let Err(p) = catch_unwind(AssertUnwindSafe(|| exec(b, log))) {
                    if !p.is::<Thrown>() {
                        resume_unwind(p);
                    }
                }
            }
            Node::Throw => resume_unwind(Box::new(Thrown)),
        }
    }
}

struct Gen<'a> {
    r: &'a mut R,
    left: usize,
    val: i64,
}

impl Gen<'_> {
    /// `used`: keys of the object reported into; `free`: what is reported is dropped, so keys may be used again
    fn body(&mut self, used: &mut Vec<usize>, free: bool, depth: usize, catch: bool) -> Vec<Node> {
        let mut out = vec![];
        let n = self.r.gen_range(0..6);
        for _ in 0..n {
            if self.left == 0 {
                break;
            }
            self.left -= 1;
            let mut key = |r: &mut R| {
                let c: Vec<usize> = (0..8).filter(|k| free || !used.contains(k)).collect();
                let k = *c.choose(r)?;
                used.push(k);
                Some(k)
            };
            let deep = depth < 7;
            match self.r.gen_range(0..20) {
                0..=5 => {
                    if let Some(k) = key(self.r) {
                        self.val += 1;
                        out.push(Node::Report(k, self.val));
                    }
                }
                6..=9 if deep => {
                    if let Some(k) = key(self.r) {
                        let b = self.body(&mut vec![], free, depth + 1, catch);
                        out.push(Node::Ctx(k, b));
                    }
                }
                10..=12 if deep => {
                    if let Some(k) = key(self.r) {
                        let mut b = vec![];
                        for _ in 0..self.r.gen_range(0..4) {
                            if self.r.gen_bool(0.75) {
                                b.push(Node::Item(self.body(&mut vec![], free, depth + 2, catch)));
                            } else {
                                let x = self.scope(depth + 1, catch);
                                b.push(x);
                            }
                        }
                        out.push(Node::Col(k, b));
                    }
                }
                13 if deep => {
                    // all of the measured function's reports go to the same object as the time itself
                    if let Some(k) = key(self.r) {
                        let how = if used.contains(&100) { self.r.gen_range(0..2) } else { self.r.gen_range(0..4) };
                        if how >= 2 && !free {
                            used.push(100);
                        }
                        let b = self.body(used, free, depth + 1, catch);
                        out.push(Node::Time(k, how, b));
                    }
                }
                14..=17 if deep => {
                    let x = self.scope(depth, catch);
                    out.push(x);
                }
                18 if deep => {
                    // whatever a failing scope has reported so far stays
                    let b = self.body(used, free, depth + 1, true);
                    out.push(Node::Catch(b));
                }
                _ => {
                    if catch && self.r.gen_bool(0.3) {
                        out.push(Node::Throw);
                        return out;
                    }
                }
            }
        }
        out
    }
    fn scope(&mut self, depth: usize, catch: bool) -> Node {
        match self.r.gen_range(0..9) {
            0..=3 => {
                let c = self.r.gen_bool(0.5);
                Node::Block(c, self.body(&mut vec![], true, depth + 1, catch))
            }
            4 => Node::Thread(self.body(&mut vec![], true, depth + 1, catch)),
            _ => {
                let t = self.r.gen_bool(0.8);
                Node::Cap(t, self.body(&mut vec![], false, depth + 1, catch))
            }
        }
    }
}

fn in_thread(e: &mut Ep, enabled: bool, prog: &[Node]) {
    let log = Log::default();
    let res = e.guard("reporting", || {
        std::thread::scope(|s| {
            let h = s.spawn(|| {
                if enabled {
                    std::mem::forget(enable_reporting("harness"));
                }
                exec(prog, &log)
            });
            if let Err(p) = h.join() {
                resume_unwind(p)
            }
        })
    });
    let evs = std::mem::take(&mut *log.lock().unwrap_or_else(|p| p.into_inner()));
    if res.is_none() {
        // the panic comes after what has been logged
        let p = e.events.pop().unwrap();
        e.events.extend(evs);
        e.events.push(p);
    } else {
        e.events.extend(evs);
    }
}

/// the whole program of a process: the report goes to standard output
pub fn child(seed: u64) {
    let mut r = StdRng::seed_from_u64(seed);
    let prog = Gen { r: &mut r, left: 30, val: 0 }.body(&mut vec![], false, 0, false);
    let log = Log::default();
    let prog_guard = enable_reporting("child");
    let res = catch_unwind(AssertUnwindSafe(|| exec(&prog, &log)));
    println!("{}", Value::Array(log.into_inner().unwrap_or_else(|p| p.into_inner())));
    if res.is_err() {
        std::process::exit(7);
    }
    drop(prog_guard);
}

pub fn run(e: &mut Ep, r: &mut R, ep: u64, _thorough: bool) {
    if ep % 16 == 7 {
        e.set("root", json!("process"));
        let seed = r.gen::<u32>() as u64;
        let out = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["report-child", "--seed", &seed.to_string(), "--out", "-"])
            .stderr(std::process::Stdio::null())
            .output()
            .unwrap();
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let mut lines = text.lines();
        let evs: Vec<Value> = serde_json::from_str(lines.next().unwrap_or("[]")).unwrap_or_default();
        for v in evs {
            e.ev(v);
        }
        let rest: Vec<&str> = lines.collect();
        let parsed = if rest.len() == 1 { serde_json::from_str::<Value>(rest[0]).ok() } else { None };
        match parsed {
            Some(Value::Object(mut o)) if out.status.success() => {
                let mut meta = vec![];
                for k in ["git_revision", "build_target", "build_profile", "feature_flags", "build_time", "build_with_rustc", "hostname", "program", "start_time", "args"] {
                    if let Some(v) = o.remove(k) {
                        if k != "program" || v == json!("child") {
                            meta.push(k);
                        }
                    }
                }
                e.ev(json!({"op": "root", "meta": meta, "res": flatten(&Value::Object(o))}));
            }
            _ => e.ev(json!({"op": "panic", "at": "process", "msg": format!("{:?} {}", out.status.code(), rest.join("|"))})),
        }
        return;
    }
    let enabled = ep % 16 != 3;
    e.set("root", json!(if enabled { "thread" } else { "none" }));
    let left = r.gen_range(5..60);
    let body = Gen { r, left, val: 0 }.body(&mut vec![], false, 0, false);
    in_thread(e, enabled, &[Node::Cap(true, body)]);
}

/// a behaviour of the specification: the operations in order, scopes left open are closed at the end
pub fn run_input(e: &mut Ep, line: &str) {
    let ops: Vec<(String, usize)> = serde_json::from_str(line).unwrap();
    let mut stack: Vec<(String, usize, Vec<Node>, bool)> = vec![("cap".into(), 0, vec![], true)];
    fn close(f: (String, usize, Vec<Node>, bool)) -> Node {
        match f.0.as_str() {
            "ctx" => Node::Ctx(f.1, f.2),
            "col" => Node::Col(f.1, f.2),
            "item" => Node::Item(f.2),
            "block" => Node::Block(false, f.2),
            "off" => Node::Thread(f.2),
            _ => Node::Cap(f.3, f.2),
        }
    }
    for (o, k) in ops {
        match o.as_str() {
            "rep" => stack.last_mut().unwrap().2.push(Node::Report(k % 8, k as i64)),
            "pop" | "take" => {
                let mut f = stack.pop().unwrap();
                f.3 = o == "take";
                let n = close(f);
                stack.last_mut().unwrap().2.push(n);
            }
            _ => stack.push((o, k % 8, vec![], false)),
        }
    }
    while stack.len() > 1 {
        let mut f = stack.pop().unwrap();
        f.3 = false;
        let n = close(f);
        stack.last_mut().unwrap().2.push(n);
    }
    e.set("root", json!("thread"));
    let n = close(stack.pop().unwrap());
    in_thread(e, true, &[n]);
}
