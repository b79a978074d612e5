//! Time-dependent hierarchies (floating point) over whole-millisecond profiles with integral slopes: earliest arrivals, paths
//! and profiles are whole numbers of milliseconds.
use crate::fam_cch::{pool, THREADS};
use crate::fam_core::road_graph;
use crate::fam_io::Scratch;
use crate::fam_td::{P, TD};
use crate::fam_tdpot::whole_profile;
use crate::util::*;
use rand::prelude::*;
use rust_road_router::algo::{catchup, customizable_contraction_hierarchy::*, dijkstra::query::floating_td_dijkstra, TDQuery, TDQueryServer};
use rust_road_router::datastr::graph::floating_time_dependent::{shortcut_graph::CustomizedGraphReconstrctor, *};
use rust_road_router::datastr::graph::Graph;
use rust_road_router::io::*;
use serde_json::json;

fn ts(ms: i64) -> Timestamp {
    Timestamp::new(ms as f64 / 1000.0)
}
fn obs(v: impl Into<f64>) -> i64 {
    let v: f64 = v.into();
    if v.is_finite() && v.abs() < 2e6 {
        (v * 1000.0).round() as i64
    } else {
        -7
    }
}
fn at(p: &TTFPoint) -> f64 {
    p.at.into()
}
fn interp(f: &[TTFPoint], t: f64) -> f64 {
    let v = |p: &TTFPoint| -> f64 { p.val.into() };
    if f.len() == 1 {
        return v(&f[0]);
    }
    let k = f.iter().rposition(|p| at(p) <= t).unwrap_or(0).min(f.len() - 2);
    let (p, q) = (&f[k], &f[k + 1]);
    v(p) + (v(q) - v(p)) * (t - at(p)) / (at(q) - at(p))
}

pub fn times(r: &mut R, td: &TD) -> i64 {
    td.times(r) as i64
}

/// [departure, observed travel time, certificate, the path valid then (arcs) or []]
fn prof(e: &mut Ep, r: &mut R, alg: &str, td: &TD, s: u32, t: u32, a: i64, b: i64, f: &[TTFPoint], paths: Option<&[(Timestamp, Vec<u32>)]>, cnt: usize) {
    if e.dead {
        return;
    }
    let n = f.len();
    let inc = f.windows(2).all(|w| at(&w[0]) < at(&w[1]));
    let mut c = vec![a, b];
    let mut more = vec![];
    for p in f.iter() {
        let x = (at(p) * 1000.0).round() as i64;
        more.extend([x - 1, x, x + 1]);
    }
    for w in f.windows(2) {
        more.push(((at(&w[0]) + at(&w[1])) * 500.0).round() as i64);
    }
    if let Some(ps) = paths {
        for p in ps {
            let x: f64 = p.0.into();
            let x = (x * 1000.0).round() as i64;
            more.extend([x - 3, x + 3]);
        }
    }
    for _ in 0..4 {
        more.push(r.gen_range(a..=b));
        more.push(times(r, td));
    }
    more.retain(|x| (a..=b).contains(x));
    more.sort();
    more.dedup();
    more.shuffle(r);
    more.truncate(cnt);
    c.extend(more);
    c.sort();
    c.dedup();
    let sw: Vec<i64> = paths.map(|ps| ps.iter().map(|p| obs(p.0)).collect()).unwrap_or_default();
    let c: Vec<_> = c
        .into_iter()
        .map(|x| {
            let (_, row) = td.cert(s, x as u32);
            let v = if n == 0 { -1 } else { obs(interp(f, x as f64 / 1000.0)) };
            let path = match paths {
                Some(ps) => ps.iter().rposition(|p| obs(p.0) <= x).map(|i| ps[i].1.iter().map(|e| *e as i64 + 1).collect()).unwrap_or(vec![]),
                None => vec![],
            };
            json!({"x": x, "v": v, "row": row, "path": path})
        })
        .collect();
    let end = if n == 0 { -1 } else if n == 1 { b } else { (at(&f[n - 1]) * 1000.0 - 0.01).ceil() as i64 };
    let beg = if n == 0 { -1 } else { (at(&f[0]) * 1000.0 + 0.01).floor() as i64 };
    e.ev(json!({"op": "prof", "alg": alg, "s": s, "t": t, "a": a, "b": b, "n": n, "inc": inc, "beg": beg, "end": end, "paths": paths.is_some(), "sw": sw, "c": c}));
}

pub fn run(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    let o = Opt { zero: false, parallel: false, loops: false, inf: false, maxw: 5 };
    let g = match ep % 6 {
        0 => gen_graph(r, 2, 5, &o),
        1 | 2 => gen_graph(r, 4, 11, &o),
        3 => gen_graph(r, 9, if thorough { 24 } else { 16 }, &o),
        _ => road_graph(r, &o, false),
    };
    let mut seen = std::collections::HashSet::new();
    let es: Vec<_> = (0..g.m()).filter(|&i| g.tail[i] != g.head[i] && seen.insert((g.tail[i], g.head[i]))).map(|i| (g.tail[i], g.head[i], g.w[i])).collect();
    let g = G::from_edges(g.n, es);
    e.graph(&g);
    e.set("base", json!([]));
    if g.m() == 0 {
        return;
    }
    let scale = *[100u32, 5_000, 60_000, 600_000, 1_800_000].choose(r).unwrap();
    let ttf: Vec<Vec<(u32, u32)>> = (0..g.m()).map(|_| whole_profile(r, scale)).collect();
    let td = TD::with(r, &g, 0, ttf, scale);
    e.set(
        "base",
        json!(td
            .ttf
            .iter()
            .map(|f| {
                let mut f = f.clone();
                if f.len() > 1 && f.last().unwrap().0 < P {
                    f.push((P, f[0].1));
                }
                f
            })
            .collect::<Vec<_>>()),
    );
    let (fo, d, t) = td.arrays();
    let fl = match e.guard("floating", || TDGraph::new(g.fo.clone(), g.head.clone(), fo, d, t)) {
        Some(x) => x,
        None => return,
    };
    let order = crate::fam_cch::order_for(r, &g, false);
    let cch = match e.guard("cch", || CCH::fix_order_and_build(&fl, order)) {
        Some(c) => c,
        None => return,
    };
    if cch.num_arcs() == 0 {
        return;
    }
    let threads = *THREADS.choose(r).unwrap();
    e.set("threads", json!(threads));
    let mut cust = match e.guard("customize", || pool(threads).install(|| catchup::customize(&cch, &fl))) {
        Some(c) => c,
        None => return,
    };
    if r.gen_bool(0.2) {
        // stored and loaded again
        let dir = Scratch::new("catchup");
        let res = e.guard("store", || {
            cust.deconstruct_to(&dir.0).unwrap();
            CustomizedGraphReconstrctor { original_graph: &fl, first_out: cch.first_out(), head: cch.head() }.reconstruct_from(&dir.0).unwrap()
        });
        match res {
            Some(c) => cust = c,
            None => return,
        }
    }
    let mut ea = catchup::Server::new(&cch, &cust);
    let mut dij = floating_td_dijkstra::Server::new(fl.clone());
    let pairs = pick_pairs(r, g.n, if thorough { 12 } else { 7 });
    let mut prf = catchup::profiles::Server::new(&cch, &cust);
    let mut naive = catchup::profiles_naive::Server::new(&cch, &cust);
    let p = P as i64;
    let cnt = if thorough { 12 } else { 6 };
    for (i, &(s, t)) in pairs.iter().enumerate() {
        if e.dead {
            return;
        }
        for k in 0..3 {
            let dep = times(r, &td);
            let (_, row) = td.cert(s, dep as u32);
            macro_rules! q {
                ($alg:expr, $srv:expr) => {{
                    let res = e.guard($alg, || {
                        let mut q = $srv.td_query(TDQuery { from: s, to: t, departure: ts(dep) });
                        let d = q.distance();
                        let path = if d.is_some() { q.node_path() } else { None };
                        (d, path)
                    });
                    if let Some((d, path)) = res {
                        let path = path.map(|p| p.iter().map(|q| [q.0 as i64, obs(q.1)]).collect::<Vec<_>>()).unwrap_or_default();
                        let arcs: Vec<usize> =
                            path.windows(2).map(|w| (0..g.m()).find(|&a| g.tail[a] as i64 == w[0][0] && g.head[a] as i64 == w[1][0]).map(|a| a + 1).unwrap_or(0)).collect();
                        e.ev(json!({"op": "q", "alg": $alg, "s": s, "t": t, "dep": dep, "d": d.map(|d| obs(d)).unwrap_or(-1), "path": path, "arcs": arcs, "row": row}));
                    }
                }};
            }
            q!("catchup", ea);
            if k == 0 && i < 3 {
                q!("floating-dijkstra", dij);
            }
        }
        if s == t || i % 2 == 1 {
            continue;
        }
        match r.gen_range(0..3) {
            0 => {
                if let Some(res) = e.guard("profile-naive", || naive.distance(s, t)) {
                    prof(e, r, "profile-naive", &td, s, t, 0, p, &res.map(|b| b.to_vec()).unwrap_or_default(), None, cnt);
                }
            }
            _ => {
                if let Some((_, f, paths)) = e.guard("profile", || prf.distance(s, t)) {
                    prof(e, r, "profile", &td, s, t, 0, p, &f, Some(&paths), cnt);
                }
            }
        }
    }
}
