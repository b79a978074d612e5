//! Detour detection and traffic-aware routing: two metrics on one graph, the smooth one and the live one.
use crate::fam_cch::order_for;
use crate::util::*;
use rand::prelude::*;
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::dijkstra::{generic_dijkstra::*, *};
use rust_road_router::algo::minimal_nonshortest_subpaths::*;
use rust_road_router::algo::traffic_aware::*;
use rust_road_router::algo::Query;
use rust_road_router::datastr::graph::*;
use rust_road_router::report::*;
use serde_json::{json, Value};
use std::ops::Range;

fn arc(g: &G, u: u32, v: u32) -> u32 {
    (g.fo[u as usize] as usize..g.fo[u as usize + 1] as usize).filter(|&e| g.head[e] == v).map(|e| g.w[e]).min().unwrap()
}
fn out(g: &G, u: u32) -> Vec<u32> {
    g.head[g.fo[u as usize] as usize..g.fo[u as usize + 1] as usize].to_vec()
}

fn tree_path(g: &G, s: u32, t: u32) -> Option<Vec<u32>> {
    let (d, p, _) = g.cert(s);
    if d[t as usize] == INF {
        return None;
    }
    let mut v = vec![t];
    while *v.last().unwrap() != s {
        v.push(g.tail[p[*v.last().unwrap() as usize] as usize - 1]);
    }
    v.reverse();
    Some(v)
}

/// walks with and without cycles
fn some_path(r: &mut R, smooth: &G, live: &G) -> Vec<u32> {
    let n = smooth.n;
    let (s, t) = (r.gen_range(0..n as u32), r.gen_range(0..n as u32));
    match r.gen_range(0..5) {
        0 => tree_path(live, s, t).unwrap_or(vec![s]),
        1 => {
            // via a third node
            let v = r.gen_range(0..n as u32);
            match (tree_path(live, s, v), tree_path(smooth, v, t)) {
                (Some(mut a), Some(b)) => {
                    a.extend(&b[1..]);
                    a
                }
                _ => vec![s],
            }
        }
        k => {
            let simple = k < 4;
            let mut p = vec![s];
            for _ in 0..r.gen_range(1..=n + 2) {
                let mut c = out(smooth, *p.last().unwrap());
                if simple {
                    c.retain(|x| !p.contains(x));
                }
                match c.choose(r) {
                    Some(&v) => p.push(v),
                    None => break,
                }
            }
            p
        }
    }
}

fn ranges(v: Vec<Range<usize>>) -> Value {
    json!(v.into_iter().map(|x| (x.start, x.end)).collect::<Vec<_>>())
}

fn acyclic(p: &[u32]) -> bool {
    let mut q = p.to_vec();
    q.sort_unstable();
    q.dedup();
    q.len() == p.len()
}

fn captured<T>(f: impl FnOnce() -> T) -> (T, Value) {
    let c = capture_reporting();
    let x = f();
    let m = c.reported().unwrap();
    (x, serde_json::to_value(&m).unwrap())
}

/// base + percentage, rounded to the whole length it must have been computed from
fn length(base: u32, rep: &Value) -> i64 {
    match rep.get("length_increase_percent").and_then(|x| x.as_f64()) {
        Some(p) => {
            let x = base as f64 * (1.0 + p / 100.0);
            if (x - x.round()).abs() < 0.01 {
                x.round() as i64
            } else {
                -3
            }
        }
        None => -1,
    }
}

pub fn run(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    thread_local!(static ON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    if !ON.with(|x| x.replace(true)) {
        std::mem::forget(enable_reporting("harness"));
    }
    let _quiet = block_reporting();
    if ep % 4 == 3 {
        return run_blocked(e, r, ep, thorough);
    }
    if ep % 4 == 2 {
        return run_td(e, r, ep, thorough);
    }
    let mut o = Opt::rand(r);
    o.zero = false;
    if o.maxw == 1 && r.gen_bool(0.8) {
        o.maxw = 6;
    }
    o.maxw = o.maxw.min(100_000);
    let hi = *[6, 9, 12].choose(r).unwrap();
    let smooth = gen_graph(r, 2, hi, &o);
    let (n, m) = (smooth.n, smooth.m());
    // live: congested, or unrelated
    let live = match r.gen_range(0..4) {
        0 => smooth.with_w((0..m).map(|_| o.weight(r)).collect()),
        1 => smooth.with_w(smooth.w.iter().map(|&w| if r.gen_bool(0.3) { w * r.gen_range(2..8) } else { w }).collect()),
        2 => smooth.with_w(smooth.w.iter().map(|&w| w + r.gen_range(0..=w)).collect()),
        _ => smooth.with_w(smooth.w.iter().map(|&w| if r.gen_bool(0.25) { w * 20 } else { w + r.gen_range(0..2) }).collect()),
    };
    e.graph(&smooth);
    e.metrics(vec![metric_json(&smooth, &all_sources(&smooth)), metric_json(&live, &all_sources(&live))]);
    e.ev(json!({"op": "load"}));
    let order = order_for(r, &smooth, false);
    let (so, lo) = (smooth.owned(), live.owned());
    let Some(cch) = e.guard("cch", || CCH::fix_order_and_build(&so, order)) else { return };
    let Some(sp) = e.guard("pot", || CCHPotData::new(&cch, &so)) else { return };
    let Some(lp) = e.guard("pot", || CCHPotData::new(&cch, &lo)) else { return };
    let eps8 = |r: &mut R| *[0u32, 0, 1, 2, 4, 8, 16].choose(r).unwrap();
    {
        let Some(mut tree) = e.guard("new", || MinimalNonShortestSubPaths::new(&sp, so.borrowed())) else { return };
        let Some(mut sse) = e.guard("new", || MinimalNonShortestSubPathsSSERphast::new(&sp, so.borrowed())) else { return };
        let Some(mut dij) = e.guard("new", || MinimalNonShortestSubPathsDijkstra::new(so.borrowed())) else { return };
        let k = if thorough { 8 } else { 5 };
        for _ in 0..k {
            let path = some_path(r, &smooth, &live);
            let k8 = eps8(r);
            let eps = k8 as f64 / 8.0;
            let mut algs = [0, 1, 2, 3, 4];
            algs.shuffle(r);
            for a in algs {
                let (name, res) = match a {
                    0 => ("tree-cch", e.guard("tree-cch", || without_reporting(|| tree.find_ubs_violating_subpaths(&path, eps)))),
                    1 => ("naive", e.guard("naive", || without_reporting(|| tree.find_ubs_violating_subpaths_lazy_rphast_naive(&path, eps)))),
                    2 => ("sse", e.guard("sse", || without_reporting(|| sse.find_ubs_violating_subpaths_sse_rphast(&path, eps)))),
                    3 => ("tree-dijkstra", e.guard("tree-dijkstra", || without_reporting(|| dij.find_ubs_violating_subpaths(&path, eps)))),
                    _ => {
                        let res = e.guard("fix", || without_reporting(|| tree.fix_violating_subpaths(&path, eps)));
                        if let Some(res) = res {
                            let (kind, fixed) = match res {
                                Ok(None) => ("ok", vec![]),
                                Ok(Some(p)) => ("fixed", p),
                                Err(p) => ("late", p),
                            };
                            e.ev(json!({"op": "fix", "p": path, "eps": k8, "res": kind, "q": fixed}));
                        }
                        continue;
                    }
                };
                if let Some(v) = res {
                    let exact = a == 1 || a == 2;
                    e.ev(json!({"op": "find", "alg": name, "exact": exact, "p": path, "eps": k8, "rs": ranges(v)}));
                }
            }
            if acyclic(&path) && path.len() >= 2 {
                let res = e.guard("lo", || {
                    without_reporting(|| {
                        let a = tree.local_optimality(&path);
                        let (b, c) = tree.suboptimal_stats(&path);
                        (a, b, c)
                    })
                });
                if let Some((a, b, c)) = res {
                    let base: u32 = path.windows(2).map(|x| arc(&smooth, x[0], x[1])).sum();
                    let whole = |x: f64| {
                        let y = x * base as f64;
                        if (y - y.round()).abs() < 1e-3 {
                            y.round() as i64
                        } else {
                            -3
                        }
                    };
                    e.ev(json!({"op": "lo", "p": path, "lo": whole(a), "lo2": whole(b), "ubs": ((c - 1.0) * 1000.0).floor() as i64}));
                }
            }
        }
    }
    // traffic-aware servers: one instance answers many queries
    let mut heur = e.guard("new", || HeuristicTrafficAwareServer::new(so.borrowed(), lo.borrowed(), &sp, &lp));
    let mut blk = e.guard("new", || TrafficAwareServer::new(so.borrowed(), lo.borrowed(), &sp, &lp));
    let mut fix = e.guard("new", || IterativePathFixing::new(so.borrowed(), lo.borrowed(), &sp, &lp));
    let mut base = e.guard("new", || SmoothPathBaseline::new(so.borrowed(), lo.borrowed(), &sp, &lp));
    if e.dead {
        return;
    }
    for _ in 0..(if thorough { 8 } else { 5 }) {
        let (s, t) = (r.gen_range(0..n as u32), r.gen_range(0..n as u32));
        if s == t {
            continue;
        }
        let q = Query { from: s, to: t };
        let d = live.cert(s).0[t as usize];
        let k8 = eps8(r);
        let eps = k8 as f64 / 8.0;
        let mut kinds = [0, 1, 2, 3];
        kinds.shuffle(r);
        for k in kinds {
            match k {
                0 => {
                    let res = e.guard("detour-blocking", || {
                        let mut paths: Vec<Vec<u32>> = vec![];
                        let (x, _) = captured(|| heur.as_mut().unwrap().query(q, eps, |p| paths.push(p.to_vec())));
                        (x.is_some(), paths)
                    });
                    if let Some((ok, paths)) = res {
                        e.ev(json!({"op": "heur", "s": s, "t": t, "eps": k8, "ok": ok, "ps": paths}));
                    }
                }
                1 => {
                    if let Some((x, rep)) = e.guard("path-blocking", || captured(|| blk.as_mut().unwrap().query(q, eps))) {
                        e.ev(json!({"op": "block", "s": s, "t": t, "eps": k8, "ok": x.is_some(), "len": length(d, &rep)}));
                    }
                }
                2 => {
                    if let Some((x, rep)) = e.guard("path-fixing", || captured(|| fix.as_mut().unwrap().query(q, eps))) {
                        e.ev(json!({"op": "fixing", "s": s, "t": t, "eps": k8, "ok": x.is_some(), "len": length(d, &rep)}));
                    }
                }
                _ => {
                    if let Some((x, rep)) = e.guard("smooth-baseline", || captured(|| base.as_mut().unwrap().query(q))) {
                        e.ev(json!({"op": "base", "s": s, "t": t, "ok": x.is_some(), "len": length(d, &rep)}));
                    }
                }
            }
        }
    }
}

/// the search with forbidden paths itself: many forbidden paths, also through one node
fn run_blocked(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    let mut o = Opt::rand(r);
    o.maxw = o.maxw.min(100_000);
    o.loops = false; // the search never uses a loop
    let hub = ep % 16 == 15;
    let g = if hub {
        // all ways lead through a hub: more than 128 forbidden paths at one node
        let k = r.gen_range(8..13u32);
        let n = 2 * k + 3;
        let (s, t, h) = (n - 1, n - 2, 2 * k);
        let mut v = vec![];
        for i in 0..k {
            v.push((s, i, o.weight(r)));
            v.push((i, h, o.weight(r)));
            v.push((h, k + i, o.weight(r)));
            v.push((k + i, t, o.weight(r)));
            if r.gen_bool(0.4) {
                v.push((k + i, r.gen_range(0..k), o.weight(r)));
            }
        }
        G::from_edges(n as usize, v)
    } else {
        gen_graph(r, 2, 9, &o)
    };
    let n = g.n;
    e.graph(&g);
    e.metrics(vec![metric_json(&g, &all_sources(&g)), metric_json(&g, &[])]);
    e.ev(json!({"op": "load"}));
    let og = g.owned();
    let Some(mut ops) = e.guard("new", || BlockedPathsDijkstra::new(n, g.m(), DefaultOpsByEdgeId())) else { return };
    let mut data: DijkstraData<(u32, ActiveForbittenPaths, (NodeIdT, ActiveForbittenPaths)), (), MultiCritNodeData<(u32, ActiveForbittenPaths, (NodeIdT, ActiveForbittenPaths))>> =
        DijkstraData::new(n);
    for round in 0..(if thorough { 3 } else { 2 }) {
        if round > 0 && e.guard("reset", || ops.reset(&og)).is_none() {
            return;
        }
        let mut forb: Vec<Vec<u32>> = vec![];
        let (s, t) = if hub { ((n - 1) as u32, (n - 2) as u32) } else { (r.gen_range(0..n as u32), r.gen_range(0..n as u32)) };
        let count = if hub { 0 } else { r.gen_range(0..=12) };
        let add = |forb: &mut Vec<Vec<u32>>, p: Vec<u32>| {
            // no forbidden path contains another one
            let inside = |a: &[u32], b: &[u32]| b.windows(a.len()).any(|x| x == a);
            if p.len() < 2 || !acyclic(&p[1..]) || !acyclic(&p[..p.len() - 1]) {
                return;
            }
            if forb.iter().any(|f| inside(f, &p) || inside(&p, f)) {
                return;
            }
            forb.push(p);
        };
        if hub {
            let k = (n as u32 - 3) / 2;
            let h = 2 * k;
            let keep = r.gen_range(0.0..0.3);
            for i in 0..k {
                for j in 0..k {
                    if !r.gen_bool(keep) {
                        add(&mut forb, vec![i, h, k + j]);
                    } else if r.gen_bool(0.3) {
                        add(&mut forb, vec![s, i, h, k + j]);
                    }
                }
            }
            forb.shuffle(r);
        } else {
            // block the answers themselves, and parts of them
            for _ in 0..count {
                let p = if r.gen_bool(0.5) {
                    match tree_path(&g, s, t) {
                        Some(p) => p,
                        None => vec![s],
                    }
                } else {
                    some_path(r, &g, &g)
                };
                let a = r.gen_range(0..p.len());
                let b = r.gen_range(a..p.len()).min(a + 5);
                add(&mut forb, p[a..=b].to_vec());
            }
        }
        let mut done = 0;
        let mut steps: Vec<usize> = (0..r.gen_range(0..3)).map(|_| r.gen_range(0..=forb.len())).collect();
        steps.push(forb.len());
        steps.sort_unstable();
        steps.dedup();
        for upto in steps {
            for f in &forb[done..upto] {
                let f = f.clone();
                if e.guard("add", || ops.add_forbidden_path(&f, &og)).is_none() {
                    return;
                }
            }
            done = upto;
            let h = g.reversed().cert(t).0;
            let with_pot = r.gen_bool(0.5);
            let res = e.guard("blocked", || {
                let pot = |v: u32| {
                    let x = h[v as usize];
                    if x == INF {
                        None
                    } else if with_pot {
                        Some(x)
                    } else {
                        Some(0)
                    }
                };
                let mut run = MultiCritDijkstraRun::query(
                    &og,
                    &mut data,
                    &mut ops,
                    DijkstraInit {
                        source: NodeIdT(s),
                        initial_state: (0, ActiveForbittenPaths::One(0), (NodeIdT(s), ActiveForbittenPaths::One(0))),
                    },
                    pot,
                );
                let mut found = false;
                while let Some(v) = run.next_step_with_potential(pot) {
                    if v == t {
                        found = true;
                        break;
                    }
                }
                if !found {
                    return -1i64;
                }
                data.distances[t as usize].popped()[0].0 .0 as i64
            });
            let Some(d) = res else { return };
            let (states, vals) = automaton(&g, &forb[..upto], s);
            e.ev(json!({"op": "blocked", "s": s, "t": t, "forb": forb[..upto], "d": d, "q": states, "v": vals.0, "par": vals.1}));
        }
    }
}

/// Shortest walks that contain no forbidden path: states are the nodes and the proper
/// prefixes of forbidden paths; returns for each state its distance and a predecessor
/// (1-based, 0 = none) with a rank to certify that predecessors are acyclic.
fn automaton(g: &G, forb: &[Vec<u32>], s: u32) -> (Vec<Vec<u32>>, (Vec<u32>, Vec<(usize, usize)>)) {
    let mut st: Vec<Vec<u32>> = (0..g.n as u32).map(|v| vec![v]).collect();
    for f in forb {
        for k in 2..f.len() {
            st.push(f[..k].to_vec());
        }
    }
    st.sort();
    st.dedup();
    let idx: std::collections::HashMap<Vec<u32>, usize> = st.iter().cloned().zip(0..).collect();
    let fs: std::collections::HashSet<Vec<u32>> = forb.iter().cloned().collect();
    let mut d = vec![INF; st.len()];
    let mut par = vec![(0, 0); st.len()];
    let mut done = vec![false; st.len()];
    d[idx[&vec![s]]] = 0;
    let mut rank = 0;
    loop {
        let Some(i) = (0..st.len()).filter(|&i| !done[i] && d[i] < INF).min_by_key(|&i| d[i]) else { break };
        done[i] = true;
        rank += 1;
        par[i].1 = rank;
        let u = *st[i].last().unwrap() as usize;
        for a in g.fo[u] as usize..g.fo[u + 1] as usize {
            let mut w = st[i].clone();
            w.push(g.head[a]);
            if (0..w.len()).any(|k| fs.contains(&w[k..])) {
                continue;
            }
            let j = (0..w.len()).find_map(|k| idx.get(&w[k..])).unwrap();
            if d[i] + g.w[a] < d[*j] {
                d[*j] = d[i] + g.w[a];
                par[*j].0 = i + 1;
            }
        }
    }
    (st, (d, par))
}

/// traffic-aware routing with predicted and live time-dependent travel times
fn run_td(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    use crate::fam_td::*;
    use crate::fam_tdpot::whole_profile;
    use rust_road_router::algo::customizable_contraction_hierarchy::customization::ftd_for_pot;
    use rust_road_router::algo::traffic_aware::{td_live, td_traffic_pots::*, time_dependent};
    use rust_road_router::algo::TDQuery;
    use rust_road_router::datastr::graph::floating_time_dependent;
    let o = Opt { zero: false, parallel: false, loops: false, inf: false, maxw: *[3u32, 20, 1000].choose(r).unwrap() };
    let hi = if r.gen_bool(0.5) { 6 } else { 8 };
    let g = if r.gen_bool(0.2) { crate::fam_core::road_graph(r, &o, false) } else { gen_graph(r, 2, hi, &o) };
    let mut seen = std::collections::HashSet::new();
    let es: Vec<_> = (0..g.m()).filter(|&i| g.tail[i] != g.head[i] && seen.insert((g.tail[i], g.head[i]))).map(|i| (g.tail[i], g.head[i], g.w[i].max(1))).collect();
    let g = G::from_edges(g.n, es);
    if g.m() == 0 || g.n > 16 {
        return;
    }
    let n = g.n;
    let fnk = if (ep / 4) % 2 == 0 { 0 } else { 2 };
    let scale = *[3u32, 100, 60_000, 600_000, 1_800_000].choose(r).unwrap();
    let ttf = (0..g.m()).map(|_| whole_profile(r, scale)).collect();
    let mut td = TD::with(r, &g, fnk, ttf, scale);
    let t_live = td.times(r) % P;
    for l in td.live.iter_mut().flatten() {
        l.0 = l.0.max(1);
        if r.gen_bool(0.7) {
            l.1 = (t_live + r.gen_range(0..7_200_000)).min(P - 1);
        }
    }
    let (gr, pg) = (td.graph(), td.pess_graph());
    // the reference: travel times on an empty road (all the potentials which take the reference into
    // account are made for), or something unrelated
    let kind = r.gen_range(0..3);
    let lower: Vec<u32> = (0..g.m()).map(|a| gr.travel_time_function(a as u32).lower_bound()).collect();
    let smooth = if kind != 0 || r.gen_bool(0.5) { g.with_w(lower) } else { g.clone() };
    td.head(e);
    e.set("fnk", json!(fnk));
    e.metrics(vec![metric_json(&smooth, &all_sources(&smooth)), metric_json(&smooth, &[])]);
    e.ev(json!({"op": "load"}));
    let so = smooth.owned();
    let order = order_for(r, &g, false);
    let Some(cch) = e.guard("cch", || CCH::fix_order_and_build(&gr, order)) else { return };
    if cch.num_arcs() == 0 {
        return;
    }
    let Some(sp) = e.guard("pot", || CCHPotData::new(&cch, &so)) else { return };
    let low = g.with_w((0..g.m()).map(|a| gr.travel_time_function(a as u32).lower_bound()).collect()).owned();
    let Some(lp) = e.guard("pot", || CCHPotData::new(&cch, &low)) else { return };
    let (f, d, t) = td.arrays();
    let Some(fl) = e.guard("floating", || floating_time_dependent::TDGraph::new(g.fo.clone(), g.head.clone(), f, d, t)) else { return };
    let qs: Vec<_> = (0..(if thorough { 6 } else { 3 }))
        .map(|_| {
            let dep = if fnk == 2 { t_live } else { td.times(r) % P };
            (r.gen_range(0..n as u32), r.gen_range(0..n as u32), dep, *[0u32, 0, 1, 2, 4, 8].choose(r).unwrap())
        })
        .filter(|x| x.0 != x.1)
        .collect();
    macro_rules! all {
        ($m:ident, $live:expr, $pot:expr) => {{
            let mut heur = e.guard("new", || $m::HeuristicTDTrafficAwareServer::new(so.borrowed(), $live, &sp, $pot));
            let mut blk = e.guard("new", || $m::TDTrafficAwareServer::new(so.borrowed(), $live, &sp, $pot));
            let mut fix = e.guard("new", || $m::IterativePathFixing::new(so.borrowed(), $live, &sp, $pot));
            let mut base = e.guard("new", || $m::SmoothPathBaseline::new(so.borrowed(), $live, &sp, $pot));
            if e.dead {
                return;
            }
            for &(s, t, dep, k8) in &qs {
                let q = TDQuery { from: s, to: t, departure: dep };
                let eps = k8 as f64 / 8.0;
                let best = td.cert(s, dep).0[t as usize];
                let res = e.guard("td-detour-blocking", || {
                    let mut paths: Vec<Vec<u32>> = vec![];
                    let (x, _) = captured(|| heur.as_mut().unwrap().query(q, eps, |p| paths.push(p.to_vec())));
                    (x.is_some(), paths)
                });
                if let Some((ok, paths)) = res {
                    e.ev(json!({"op": "tdheur", "s": s, "t": t, "dep": dep, "eps": k8, "ok": ok, "ps": paths}));
                }
                if let Some((x, rep)) = e.guard("td-path-blocking", || captured(|| blk.as_mut().unwrap().query(q, eps))) {
                    // relative to the arrival
                    e.ev(json!({"op": "tdblock", "s": s, "t": t, "dep": dep, "eps": k8, "ok": x.is_some(), "arr": length(best, &rep)}));
                }
                if let Some((x, rep)) = e.guard("td-path-fixing", || captured(|| fix.as_mut().unwrap().query(q, eps))) {
                    e.ev(json!({"op": "tdfixing", "s": s, "t": t, "dep": dep, "eps": k8, "ok": x.is_some(), "len": length(best - dep, &rep)}));
                }
                if let Some((x, rep)) = e.guard("td-smooth-baseline", || captured(|| base.as_mut().unwrap().query(q))) {
                    e.ev(json!({"op": "tdbase", "s": s, "t": t, "dep": dep, "ok": x.is_some(), "len": length(best - dep, &rep)}));
                }
            }
        }};
    }
    e.set("pot", json!(kind));
    match (fnk, kind) {
        (0, 0) => all!(time_dependent, &gr, lp.forward_potential()),
        (0, 1) => {
            let rs = rust_road_router::algo::td_astar::ranges();
            all!(time_dependent, &gr, MultiMetric::new(MultiMetricPreprocessed::new(&cch, rs.clone(), &gr, &so.borrowed(), None), &gr))
        }
        (0, _) => all!(time_dependent, &gr, IntervalMinPotential::<(u32, u32)>::new(&cch, ftd_for_pot::customize::<96>(&cch, &fl), so.borrowed(), &gr)),
        (_, 0) => all!(td_live, &pg, lp.forward_potential()),
        _ => all!(td_live, &pg, IntervalMinPotential::<(u32, u32)>::new_for_simple_live(&cch, ftd_for_pot::customize::<96>(&cch, &fl), &pg, t_live, so.borrowed())),
    }
}
