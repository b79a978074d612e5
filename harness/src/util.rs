//! Harness plumbing: graph generation, certified reference distances, event recording.
use rand::prelude::*;
use rust_road_router::datastr::graph::{first_out_graph::OwnedGraph, *};
use rust_road_router::datastr::node_order::NodeOrder;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const INF: u32 = INFINITY;

#[derive(Clone, Debug)]
pub struct G {
    pub n: usize,
    pub fo: Vec<u32>,
    pub tail: Vec<u32>,
    pub head: Vec<u32>,
    pub w: Vec<u32>,
}

impl G {
    pub fn from_edges(n: usize, mut e: Vec<(u32, u32, u32)>) -> G {
        // stable sort by tail only: keeps an arbitrary order of heads within a node
        e.sort_by_key(|x| x.0);
        let mut fo = vec![0u32; n + 1];
        for x in &e {
            fo[x.0 as usize + 1] += 1;
        }
        for i in 0..n {
            fo[i + 1] += fo[i];
        }
        G {
            n,
            fo,
            tail: e.iter().map(|x| x.0).collect(),
            head: e.iter().map(|x| x.1).collect(),
            w: e.iter().map(|x| x.2).collect(),
        }
    }
    pub fn m(&self) -> usize {
        self.head.len()
    }
    pub fn owned(&self) -> OwnedGraph {
        OwnedGraph::new(self.fo.clone(), self.head.clone(), self.w.clone())
    }
    pub fn with_w(&self, w: Vec<u32>) -> G {
        G { w, ..self.clone() }
    }
    pub fn reversed(&self) -> G {
        G::from_edges(self.n, (0..self.m()).map(|i| (self.head[i], self.tail[i], self.w[i])).collect())
    }
    /// certified single source distances: dist, parent edge (1-based, 0 = none), order of settling
    pub fn cert(&self, s: u32) -> (Vec<u32>, Vec<u32>, Vec<u32>) {
        let n = self.n;
        let mut d = vec![INF; n];
        let mut p = vec![0u32; n];
        let mut o = vec![0u32; n];
        let mut done = vec![false; n];
        d[s as usize] = 0;
        let mut cnt = 0;
        let mut heap = std::collections::BinaryHeap::new();
        heap.push(std::cmp::Reverse((0u32, s)));
        while let Some(std::cmp::Reverse((du, u))) = heap.pop() {
            let u = u as usize;
            if done[u] || d[u] != du {
                continue;
            }
            done[u] = true;
            cnt += 1;
            o[u] = cnt;
            for e in self.fo[u] as usize..self.fo[u + 1] as usize {
                let w = self.w[e];
                if w >= INF {
                    continue;
                }
                let nd = (du as u64 + w as u64).min(INF as u64) as u32;
                let v = self.head[e] as usize;
                if nd < d[v] {
                    d[v] = nd;
                    p[v] = e as u32 + 1;
                    heap.push(std::cmp::Reverse((nd, v as u32)));
                }
            }
        }
        (d, p, o)
    }
    pub fn dist_all(&self) -> Vec<Vec<u32>> {
        (0..self.n as u32).map(|s| self.cert(s).0).collect()
    }
}

/// metric record for the trace: weights and certificates for the given sources
pub fn metric_json(g: &G, sources: &[u32]) -> Value {
    let mut ri = vec![0usize; g.n];
    let mut refs = Vec::new();
    for &s in sources {
        if ri[s as usize] != 0 {
            continue;
        }
        let (d, p, o) = g.cert(s);
        refs.push(json!({"s": s, "d": d, "p": p, "o": o}));
        ri[s as usize] = refs.len();
    }
    json!({"w": g.w, "ri": ri, "ref": refs})
}

pub fn all_sources(g: &G) -> Vec<u32> {
    (0..g.n as u32).collect()
}

/// weight for the trace. Values above INFINITY do not fit TLC's integers: -2
pub fn jw(x: u32) -> i64 {
    if x <= INF {
        x as i64
    } else {
        -2
    }
}
pub fn jo(x: Option<u32>) -> i64 {
    match x {
        None => -1,
        Some(w) => jw(w),
    }
}

pub struct Ep {
    pub head: serde_json::Map<String, Value>,
    pub events: Vec<Value>,
    pub dead: bool,
}

impl Ep {
    pub fn new() -> Ep {
        Ep {
            head: Default::default(),
            events: vec![],
            dead: false,
        }
    }
    pub fn set(&mut self, k: &str, v: Value) {
        self.head.insert(k.to_string(), v);
    }
    pub fn graph(&mut self, g: &G) {
        self.set("n", json!(g.n));
        self.set("fo", json!(g.fo));
        self.set("tail", json!(g.tail));
        self.set("head", json!(g.head));
    }
    pub fn metrics(&mut self, ms: Vec<Value>) {
        self.set("metrics", Value::Array(ms));
    }
    pub fn ev(&mut self, v: Value) {
        if !self.dead {
            self.events.push(v);
        }
    }
    /// run code under test; a panic becomes an event no specification accepts
    pub fn guard<T>(&mut self, at: &str, f: impl FnOnce() -> T) -> Option<T> {
        if self.dead {
            return None;
        }
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(x) => Some(x),
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                self.events.push(json!({"op": "panic", "at": at, "msg": msg}));
                self.dead = true;
                None
            }
        }
    }
}

#[macro_export]
macro_rules! query {
    ($ep:expr, $alg:expr, $srv:expr, $s:expr, $t:expr) => {{
        let (s, t) = ($s, $t);
        let r = $ep.guard($alg, || {
            let mut r = $srv.query(rust_road_router::algo::Query { from: s, to: t });
            let d = r.distance();
            let p = r.node_path();
            (d, p)
        });
        if let Some((d, p)) = r {
            $ep.ev(serde_json::json!({"op": "q", "alg": $alg, "s": s, "t": t, "d": $crate::util::jo(d), "path": p.unwrap_or_default()}));
        }
    }};
}

/// distance only
#[macro_export]
macro_rules! query_d {
    ($ep:expr, $alg:expr, $srv:expr, $s:expr, $t:expr) => {{
        let (s, t) = ($s, $t);
        let r = $ep.guard($alg, || $srv.query(rust_road_router::algo::Query { from: s, to: t }).distance());
        if let Some(d) = r {
            $ep.ev(serde_json::json!({"op": "qd", "alg": $alg, "s": s, "t": t, "d": $crate::util::jo(d)}));
        }
    }};
}

pub type R = StdRng;

#[derive(Clone, Copy, Debug)]
pub struct Opt {
    pub zero: bool,
    pub parallel: bool,
    pub loops: bool,
    pub inf: bool,
    pub maxw: u32,
}
impl Opt {
    pub fn rand(r: &mut R) -> Opt {
        Opt {
            zero: r.gen_bool(0.4),
            parallel: r.gen_bool(0.5),
            loops: r.gen_bool(0.4),
            inf: false,
            maxw: *[1u32, 2, 3, 6, 20, 1000, 7_000_000].choose(r).unwrap(),
        }
    }
    pub fn weight(&self, r: &mut R) -> u32 {
        if self.zero && r.gen_bool(0.25) {
            return 0;
        }
        if self.inf && r.gen_bool(0.12) {
            return INF;
        }
        r.gen_range(1..=self.maxw)
    }
}

/// structurally diverse random graphs
pub fn gen_graph(r: &mut R, nmin: usize, nmax: usize, o: &Opt) -> G {
    let n = r.gen_range(nmin..=nmax);
    let mut e: Vec<(u32, u32, u32)> = vec![];
    let kind = r.gen_range(0..10);
    let bidir = r.gen_bool(0.6);
    let add = |e: &mut Vec<(u32, u32, u32)>, u: usize, v: usize, r: &mut R| {
        let w = o.weight(r);
        e.push((u as u32, v as u32, w));
        if bidir {
            let w2 = if r.gen_bool(0.7) { w } else { o.weight(r) };
            e.push((v as u32, u as u32, w2));
        }
    };
    match kind {
        // sparse random
        0 | 1 | 2 => {
            let m = (n as f64 * r.gen_range(0.6..2.2)) as usize;
            for _ in 0..m {
                let (u, v) = (r.gen_range(0..n), r.gen_range(0..n));
                add(&mut e, u, v, r);
            }
        }
        // dense random
        3 => {
            let p = r.gen_range(0.3..1.0);
            for u in 0..n {
                for v in 0..n {
                    if u != v && r.gen_bool(p * (12.0 / n as f64).min(1.0)) {
                        e.push((u as u32, v as u32, o.weight(r)));
                    }
                }
            }
        }
        // grid
        4 | 5 => {
            let c = ((n as f64).sqrt().ceil() as usize).max(1);
            for u in 0..n {
                if (u + 1) % c != 0 && u + 1 < n {
                    add(&mut e, u, u + 1, r);
                }
                if u + c < n {
                    add(&mut e, u, u + c, r);
                }
            }
        }
        // random tree + chords
        6 => {
            for v in 1..n {
                let u = r.gen_range(v.saturating_sub(4)..v);
                add(&mut e, u, v, r);
            }
            for _ in 0..r.gen_range(0..=n / 3 + 1) {
                let (u, v) = (r.gen_range(0..n), r.gen_range(0..n));
                add(&mut e, u, v, r);
            }
        }
        // path / cycle with chords
        7 => {
            for v in 1..n {
                add(&mut e, v - 1, v, r);
            }
            if n > 2 && r.gen_bool(0.6) {
                add(&mut e, n - 1, 0, r);
            }
            if r.gen_bool(0.5) {
                let (u, v) = (r.gen_range(0..n), r.gen_range(0..n));
                add(&mut e, u, v, r);
            }
        }
        // two components (maybe linked one way)
        8 => {
            let h = (n / 2).max(1);
            for _ in 0..2 * n {
                let (lo, hi) = if r.gen_bool(0.5) || h == n { (0, h) } else { (h, n) };
                let (u, v) = (r.gen_range(lo..hi), r.gen_range(lo..hi));
                add(&mut e, u, v, r);
            }
            if h < n && r.gen_bool(0.5) {
                e.push((r.gen_range(0..h) as u32, r.gen_range(h..n) as u32, o.weight(r)));
            }
        }
        // star / caterpillar with isolated nodes
        _ => {
            let c = r.gen_range(0..n);
            for v in 0..n {
                if v != c && r.gen_bool(0.8) {
                    add(&mut e, c, v, r);
                }
            }
            for _ in 0..n / 2 {
                let (u, v) = (r.gen_range(0..n), r.gen_range(0..n));
                add(&mut e, u, v, r);
            }
        }
    }
    if !o.loops {
        e.retain(|x| x.0 != x.1);
    }
    if o.parallel && !e.is_empty() {
        for _ in 0..r.gen_range(0..=n / 3 + 1) {
            let &(u, v, _) = e.choose(r).unwrap();
            e.push((u, v, o.weight(r)));
        }
    } else {
        let mut seen = std::collections::HashSet::new();
        e.retain(|x| seen.insert((x.0, x.1)));
    }
    // relabel nodes so ids carry no structure, shuffle arcs
    let mut perm: Vec<u32> = (0..n as u32).collect();
    if r.gen_bool(0.7) {
        perm.shuffle(r);
    }
    for x in &mut e {
        x.0 = perm[x.0 as usize];
        x.1 = perm[x.1 as usize];
    }
    if r.gen_bool(0.7) {
        e.shuffle(r);
    }
    G::from_edges(n, e)
}

/// all graphs on 3 nodes with arc weights from {absent,0,1,3}: index 0..4096
pub fn tiny_graph(idx: usize) -> G {
    let ws = [None, Some(0), Some(1), Some(3)];
    let mut e = vec![];
    let mut x = idx;
    for u in 0..3u32 {
        for v in 0..3u32 {
            if u != v {
                if let Some(w) = ws[x % 4] {
                    e.push((u, v, w));
                }
                x /= 4;
            }
        }
    }
    G::from_edges(3, e)
}

pub fn rand_order(r: &mut R, n: usize) -> NodeOrder {
    let mut o: Vec<u32> = (0..n as u32).collect();
    o.shuffle(r);
    NodeOrder::from_node_order(o)
}

/// a sensible (nested-dissection like) or random order
pub fn some_order(r: &mut R, g: &G) -> NodeOrder {
    match r.gen_range(0..4) {
        0 => NodeOrder::identity(g.n),
        1 => {
            // min degree-ish order
            let mut adj: Vec<std::collections::BTreeSet<u32>> = vec![Default::default(); g.n];
            for i in 0..g.m() {
                if g.tail[i] != g.head[i] {
                    adj[g.tail[i] as usize].insert(g.head[i]);
                    adj[g.head[i] as usize].insert(g.tail[i]);
                }
            }
            let mut left: std::collections::BTreeSet<u32> = (0..g.n as u32).collect();
            let mut o = vec![];
            while !left.is_empty() {
                let &v = left.iter().min_by_key(|&&v| adj[v as usize].len()).unwrap();
                left.remove(&v);
                o.push(v);
                let nb: Vec<u32> = adj[v as usize].iter().copied().collect();
                for &a in &nb {
                    adj[a as usize].remove(&v);
                    for &b in &nb {
                        if a != b {
                            adj[a as usize].insert(b);
                        }
                    }
                }
            }
            NodeOrder::from_node_order(o)
        }
        _ => rand_order(r, g.n),
    }
}

pub fn pick_pairs(r: &mut R, n: usize, k: usize) -> Vec<(u32, u32)> {
    if n * n <= k {
        let mut v: Vec<(u32, u32)> = (0..n as u32).flat_map(|s| (0..n as u32).map(move |t| (s, t))).collect();
        v.shuffle(r);
        v
    } else {
        (0..k).map(|_| (r.gen_range(0..n as u32), r.gen_range(0..n as u32))).collect()
    }
}
