//! The route server, run as a process on the loopback network with a data directory of its own.
use crate::fam_cch::order_for;
use crate::fam_io::Scratch;
use crate::util::*;
use rand::prelude::*;
use rust_road_router::datastr::rank_select_map::BitVec;
use rust_road_router::io::*;
use rust_road_router::util::in_range_option::InRangeOption;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Service {
    child: Child,
    port: u16,
}
impl Drop for Service {
    fn drop(&mut self) {
        self.child.kill().ok();
        self.child.wait().ok();
    }
}

fn request(port: u16, head: &str, body: &str) -> Option<(u32, String)> {
    let mut s = TcpStream::connect(("127.0.0.1", port)).ok()?;
    s.set_read_timeout(Some(Duration::from_secs(60))).ok();
    let msg = format!(
        "{} HTTP/1.1\r\nHost: 127.0.0.1\r\nAccept: application/json\r\nContent-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{}",
        head,
        body.len(),
        body
    );
    s.write_all(msg.as_bytes()).ok()?;
    let mut out = vec![];
    s.read_to_end(&mut out).ok();
    let out = String::from_utf8_lossy(&out).to_string();
    let status = out.split_whitespace().nth(1)?.parse().ok()?;
    Some((status, out.split_once("\r\n\r\n").map(|x| x.1.to_string()).unwrap_or_default()))
}

fn start(dir: &std::path::Path) -> Option<Service> {
    let bin = std::env::var("CARGO_TARGET_DIR").unwrap_or("/verif/target".into()) + "/debug/server";
    for _ in 0..5 {
        let port = TcpListener::bind(("127.0.0.1", 0)).ok()?.local_addr().ok()?.port();
        let child = Command::new(&bin)
            .arg(dir)
            .current_dir(dir)
            .env("ROCKET_ENV", "production")
            .env("ROCKET_ADDRESS", "127.0.0.1")
            .env("ROCKET_PORT", port.to_string())
            .env("ROCKET_WORKERS", "4")
            .env("ROCKET_LOG", "off")
            .env("ROCKET_KEEP_ALIVE", "0")
            .env("ROCKET_SECRET_KEY", "VheMwXIBygSmOlZAhuWl2B+zgvTN3WW5aAAAAAAAAAA=")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("server binary");
        let mut s = Service { child, port };
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(40) {
            if s.child.try_wait().ok()?.is_some() {
                break; // the port was taken
            }
            if TcpStream::connect(("127.0.0.1", port)).is_ok() {
                return Some(s);
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    None
}

/// the network and the names of its links
struct Net {
    g: G,
    lat: Vec<f32>,
    lng: Vec<f32>,
    /// link id, arcs of both directions
    links: Vec<(u64, [i64; 2])>,
    unknown: Vec<u64>,
}

struct Log(Mutex<Vec<Value>>);
impl Log {
    fn put(&self, v: Value) {
        self.0.lock().unwrap().push(v)
    }
}

#[derive(Clone, Copy)]
enum Q {
    Geo(u32, u32),
    /// index of the link or -1, direction from the reference node, eighths of the link
    Here((i64, bool, u32), (i64, bool, u32)),
}

impl Net {
    fn node_at(&self, p: &Value) -> i64 {
        let f = |i: usize| p[i].as_f64().unwrap_or(f64::NAN) as f32;
        (0..self.g.n).find(|&v| self.lat[v] == f(0) && self.lng[v] == f(1)).map(|v| v as i64).unwrap_or(-1)
    }
    fn link_id(&self, i: i64) -> u64 {
        if i < 0 {
            self.unknown[(-i - 1) as usize]
        } else {
            self.links[i as usize].0
        }
    }
    fn ask(&self, port: u16, log: &Log, c: usize, q: Q, jitter: (f32, f32)) -> Option<i64> {
        let url = match q {
            Q::Geo(s, t) => {
                log.put(json!({"op": "call", "c": c, "kind": "geo", "s": s, "t": t}));
                format!(
                    "/query?from_lat={}&from_lng={}&to_lat={}&to_lng={}",
                    self.lat[s as usize] + jitter.0,
                    self.lng[s as usize] + jitter.1,
                    self.lat[t as usize] + jitter.1,
                    self.lng[t as usize] - jitter.0
                )
            }
            Q::Here(a, b) => {
                let arc = |x: (i64, bool, u32)| if x.0 < 0 { -1 } else { self.links[x.0 as usize].1[if x.1 { 0 } else { 1 }] };
                log.put(json!({"op": "call", "c": c, "kind": "here", "from": [a.0, a.1 as u32, a.2, arc(a)], "to": [b.0, b.1 as u32, b.2, arc(b)]}));
                format!(
                    "/here_query?from_link_id={}&from_direction={}&from_link_fraction={}&to_link_id={}&to_direction={}&to_link_fraction={}",
                    self.link_id(a.0),
                    a.1,
                    a.2 as f32 / 8.0,
                    self.link_id(b.0),
                    b.1,
                    b.2 as f32 / 8.0
                )
            }
        };
        let r = request(port, &format!("GET {}", url), "");
        let v: Option<Value> = r.as_ref().filter(|x| x.0 == 200).and_then(|x| serde_json::from_str(x.1.trim()).ok());
        let v = match v {
            None => {
                log.put(json!({"op": "failed", "c": c, "status": r.map(|x| x.0).unwrap_or(0)}));
                return None;
            }
            Some(v) => v,
        };
        if v.is_null() {
            log.put(json!({"op": "ret", "c": c, "d": -1, "path": []}));
            return Some(-1);
        }
        let d = v["distance"].as_u64().map(|x| if x <= INF as u64 { x as i64 } else { -2 }).unwrap_or(-3);
        let empty = vec![];
        let p = v["path"].as_array().unwrap_or(&empty);
        let path: Vec<Value> = match q {
            Q::Geo(..) => p.iter().map(|x| json!(self.node_at(x))).collect(),
            Q::Here(..) => p
                .iter()
                .map(|x| {
                    let id = x[0].as_u64().unwrap_or(u64::MAX);
                    let i = self.links.iter().position(|l| l.0 == id).map(|x| x as i64).unwrap_or(-1);
                    let dir = x[1].as_bool().unwrap_or(false);
                    json!([i, dir as u32, if i < 0 { -1 } else { self.links[i as usize].1[if dir { 0 } else { 1 }] }])
                })
                .collect(),
        };
        log.put(json!({"op": "ret", "c": c, "d": d, "path": path}));
        Some(d)
    }
    fn rand_q(&self, r: &mut R) -> Q {
        if r.gen_bool(0.5) {
            let n = self.g.n as u32;
            Q::Geo(r.gen_range(0..n), r.gen_range(0..n))
        } else {
            let end = |r: &mut R| {
                let f = *[0, 1, 3, 4, 8].choose(r).unwrap();
                if r.gen_bool(0.06) {
                    return (-(r.gen_range(1..=self.unknown.len()) as i64), r.gen_bool(0.5), f);
                }
                let i = r.gen_range(0..self.links.len());
                // mostly existing directions
                let d = r.gen_bool(0.5);
                let d = if self.links[i].1[if d { 0 } else { 1 }] < 0 && r.gen_bool(0.9) { !d } else { d };
                (i as i64, d, f)
            };
            Q::Here(end(r), end(r))
        }
    }
}

fn jitter(r: &mut R) -> (f32, f32) {
    if r.gen_bool(0.6) {
        (0.0, 0.0)
    } else {
        (r.gen_range(-50..=50) as f32 / 1024.0, r.gen_range(-50..=50) as f32 / 1024.0)
    }
}

pub fn run(e: &mut Ep, r: &mut R, _ep: u64, thorough: bool) {
    let o = Opt { parallel: true, maxw: *[3, 20, 1000, 200_000].choose(r).unwrap(), ..Opt::rand(r) };
    let mut g = gen_graph(r, 2, if thorough { 20 } else { 14 }, &o);
    while g.m() == 0 {
        g = gen_graph(r, 2, 14, &o);
    }
    // more parallel links
    let mut es: Vec<(u32, u32, u32)> = (0..g.m()).map(|i| (g.tail[i], g.head[i], g.w[i])).collect();
    for i in 0..es.len() {
        if r.gen_bool(0.2) {
            es.push((es[i].0, es[i].1, o.weight(r)));
        }
    }
    let g = G::from_edges(g.n, es);
    let n = g.n;
    let mut cells: Vec<(u32, u32)> = (0..6).flat_map(|x| (0..6).map(move |y| (x, y))).collect();
    cells.shuffle(r);
    let lat: Vec<f32> = (0..n).map(|i| 48.0 + cells[i].0 as f32 * 0.25).collect();
    let lng: Vec<f32> = (0..n).map(|i| -8.0 + cells[i].1 as f32 * 0.25).collect();
    // names of the links: opposite arcs sometimes share one
    let mut arcs: Vec<usize> = (0..g.m()).collect();
    arcs.shuffle(r);
    let mut dirs: Vec<[i64; 2]> = vec![];
    let mut used = vec![false; g.m()];
    for &a in &arcs {
        if used[a] {
            continue;
        }
        used[a] = true;
        let back = arcs.iter().copied().find(|&b| !used[b] && g.tail[b] == g.head[a] && g.head[b] == g.tail[a]);
        let d = r.gen_range(0..2);
        let mut x = [-1, -1];
        x[d] = a as i64;
        if let (Some(b), true) = (back, r.gen_bool(0.7)) {
            used[b] = true;
            x[1 - d] = b as i64;
        }
        dirs.push(x);
    }
    let size = dirs.len() * r.gen_range(2..40) + r.gen_range(1..100);
    let mut ids: Vec<usize> = rand::seq::index::sample(r, size, dirs.len()).into_vec();
    ids.sort();
    let mut unknown = vec![size as u64 + 17, u64::MAX / 2];
    unknown.extend((0..size).find(|x| ids.binary_search(x).is_err()).map(|x| x as u64));
    let net = Net { g: g.clone(), lat, lng, links: ids.iter().map(|&x| x as u64).zip(dirs.iter().copied()).collect(), unknown };

    let dir = Scratch::new("server");
    let p = |x: &str| dir.0.join(x);
    g.fo.write_to(&p("first_out")).unwrap();
    g.head.write_to(&p("head")).unwrap();
    g.w.write_to(&p("travel_time")).unwrap();
    net.lat.write_to(&p("latitude")).unwrap();
    net.lng.write_to(&p("longitude")).unwrap();
    let mut bits = BitVec::new(size);
    for &i in &ids {
        bits.set(i);
    }
    bits.write_to(&p("link_id_mapping")).unwrap();
    let op = |x: i64| if x < 0 { InRangeOption::NONE } else { InRangeOption::some(x as u32) };
    dirs.iter().map(|d| (op(d[0]), op(d[1]))).collect::<Vec<(InRangeOption<u32>, InRangeOption<u32>)>>().write_to(&p("here_rank_to_link_id")).unwrap();
    let order: Vec<u32> = order_for(r, &g, false).order().to_vec();
    order.write_to(&p("cch_perm")).unwrap();

    // the updates of this history: each describes a whole metric on top of the initial one
    let k = r.gen_range(1..=if thorough { 5 } else { 4 });
    let mut updates: Vec<Vec<(i64, bool, i64)>> = vec![];
    let mut ms = vec![g.clone()];
    for _ in 0..k {
        let mut u = vec![];
        for _ in 0..*[0, 1, 2, 6, 25].choose(r).unwrap() {
            let i = if r.gen_bool(0.05) { -(r.gen_range(1..=net.unknown.len()) as i64) } else { r.gen_range(0..net.links.len()) as i64 };
            let w = if r.gen_bool(0.25) { -1 } else { *[0, 1, o.weight(r) as i64, 2 * o.weight(r) as i64, 5_000_000].choose(r).unwrap() };
            u.push((i, r.gen_bool(0.5), w));
        }
        let mut w = g.w.clone();
        for &(i, d, x) in &u {
            if i >= 0 {
                let a = net.links[i as usize].1[if d { 0 } else { 1 }];
                if a >= 0 {
                    w[a as usize] = if x < 0 { INF } else { x as u32 };
                }
            }
        }
        updates.push(u);
        ms.push(g.with_w(w));
    }
    e.graph(&g);
    e.set("links", json!(dirs));
    let srcs = all_sources(&g);
    e.metrics(ms.iter().map(|m| metric_json(m, &srcs)).collect());
    e.set("updates", json!(updates.iter().map(|u| u.iter().map(|x| json!([x.0, x.1 as u32, x.2])).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let dists: Vec<_> = ms.iter().map(|m| m.dist_all()).collect();

    let s = start(&dir.0).expect("the server did not start");
    let log = Log(Mutex::new(vec![]));
    log.put(json!({"op": "begin"}));
    let post = |u: usize| {
        let body: Vec<Value> = updates[u].iter().map(|x| json!([net.link_id(x.0), x.1, if x.2 < 0 { Value::Null } else { json!(x.2) }])).collect();
        log.put(json!({"op": "submit", "u": u + 1}));
        let res = request(s.port, "POST /customize", &Value::Array(body).to_string());
        log.put(json!({"op": "submitted", "u": u + 1, "status": res.map(|x| x.0).unwrap_or(0)}));
    };
    let bad = |r: &mut R| {
        let body = ["[[1,true,-5]]", "[[1,true,1.5]]", "[[1,true,2147483647]]", "[[1,true,\"x\"]]", "[[1,true]]", "nonsense", "[[1,true,99999999999999999999999]]"].choose(r).unwrap().to_string();
        let res = request(s.port, "POST /customize", &body);
        log.put(json!({"op": "bad", "what": body, "status": res.map(|x| x.0).unwrap_or(0)}));
    };
    let steps = r.gen_range(0..4);
    for _ in 0..steps {
        net.ask(s.port, &log, 1, net.rand_q(r), jitter(r));
    }
    let mut next = 0;
    // one after the other: each update has to arrive
    let mut cur = 0;
    let single = r.gen_range(0..=k);
    while next < single {
        post(next);
        next += 1;
        let differ: Vec<(u32, u32)> = (0..n as u32).flat_map(|a| (0..n as u32).map(move |b| (a, b))).filter(|&(a, b)| dists[cur][a as usize][b as usize] != dists[next][a as usize][b as usize]).collect();
        if let Some(&(a, b)) = differ.choose(r) {
            let t = Instant::now();
            let want = jo(Some(dists[next][a as usize][b as usize]).filter(|&x| x < INF));
            let mut wait = 1;
            loop {
                match net.ask(s.port, &log, 1, Q::Geo(a, b), (0.0, 0.0)) {
                    Some(d) if d == want => break,
                    None => break,
                    _ => {}
                }
                if t.elapsed() > Duration::from_secs(30) {
                    log.put(json!({"op": "stuck", "u": next}));
                    break;
                }
                std::thread::sleep(Duration::from_millis(wait));
                wait = (wait * 2).min(500);
            }
        }
        if cur + 1 < next || differ.is_empty() {
            std::thread::sleep(Duration::from_millis(50));
        }
        cur = next;
        for _ in 0..r.gen_range(1..6) {
            net.ask(s.port, &log, 1, net.rand_q(r), jitter(r));
        }
        if r.gen_bool(0.3) {
            bad(r);
        }
    }
    // updates and questions at the same time
    let seeds: Vec<u64> = (0..3).map(|_| r.gen()).collect();
    let clients = r.gen_range(1..=2usize);
    std::thread::scope(|sc| {
        for c in 1..=clients {
            let (net, log, s, seed) = (&net, &log, &s, seeds[c]);
            sc.spawn(move || {
                let mut r = R::seed_from_u64(seed);
                for _ in 0..r.gen_range(3..9) {
                    net.ask(s.port, log, c, net.rand_q(&mut r), jitter(&mut r));
                }
            });
        }
        while next < k {
            post(next);
            next += 1;
            std::thread::sleep(Duration::from_micros(r.gen_range(0..3000)));
        }
    });
    for _ in 0..r.gen_range(2..6) {
        net.ask(s.port, &log, 1, net.rand_q(r), jitter(r));
    }
    drop(s);
    e.events = log.0.into_inner().unwrap();
}
