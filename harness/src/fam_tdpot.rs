//! Time-dependent lower bounds and the searches accelerated by them.
use crate::fam_core::road_graph;
use crate::fam_td::*;
use crate::util::*;
use crate::tdq;
use rand::prelude::*;
use rust_road_router::algo::ch_potentials::{td_query::Server, *};
use rust_road_router::algo::customizable_contraction_hierarchy::{customization::ftd_for_pot, *};
use rust_road_router::algo::dijkstra::query::td_dijkstra::*;
use rust_road_router::algo::td_astar::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;
use serde_json::json;

/// a first-in-first-out profile with integral slopes: whole milliseconds stay whole milliseconds
pub fn whole_profile(r: &mut R, scale: u32) -> Vec<(u32, u32)> {
    if r.gen_bool(0.35) {
        return vec![(0, r.gen_range(1..=scale))];
    }
    let base = r.gen_range(1..=scale);
    let mut v = vec![(0, base)];
    let peaks = r.gen_range(1..4);
    let mut at: u32 = 0;
    for i in 0..peaks {
        let room = P / peaks * (i + 1);
        let k = *[1u32, 1, 2, 5].choose(r).unwrap();
        let up = r.gen_range(1..=scale);
        // rise of slope k, flat, fall of slope -1
        let flat = if r.gen_bool(0.3) { 0 } else { r.gen_range(0..=3 * scale) };
        let rise = (up / k).max(1);
        let total = rise + flat + rise * k;
        if at + total + 2 >= room {
            continue;
        }
        let mut start = r.gen_range(at..room - total);
        if r.gen_bool(0.3) {
            // ends or begins at the border of a bucket
            let q = P / 96;
            let x = (start / q + 1) * q;
            if x + total < room {
                start = x;
            }
        }
        if start > v.last().unwrap().0 {
            v.push((start, base));
        }
        v.push((start + rise, base + rise * k));
        if flat > 0 {
            v.push((start + rise + flat, base + rise * k));
        }
        v.push((start + total, base));
        at = start + total;
    }
    if v.len() > 1 && v.last().unwrap().0 < P && r.gen_bool(0.3) {
        v.push((P, base));
    }
    v
}

fn some_ranges(r: &mut R) -> Vec<TRange<u32>> {
    match r.gen_range(0..4) {
        0 | 1 => ranges(),
        2 => vec![],
        _ => (0..r.gen_range(1..12))
            .map(|_| {
                let a = r.gen_range(0..P);
                let len = if r.gen_bool(0.3) { P } else { P - a };
                TRange { start: a, end: a + r.gen_range(1..=len) }
            })
            .collect(),
    }
}

/// reduction to fewer metrics, as tdpot/src/bin/interval_min_reduction.rs does it
fn reduced(mut d: ftd_for_pot::PotData, k: usize) -> ftd_for_pot::PotData {
    let m = d.fw_static_bound.len();
    let metrics: Vec<_> = d.fw_bucket_bounds.chunks(m).collect();
    let n = metrics.len();
    let merged = metric_merging::merge(&metrics, k);
    let f = |ms: Vec<&[u32]>| -> Vec<u32> { merged.iter().flat_map(|g| (0..m).map(|e| g.iter().map(|&i| ms[i][e]).min().unwrap()).collect::<Vec<_>>()).collect() };
    let fw = f(metrics.clone());
    let bw = f(d.bw_bucket_bounds.chunks(m).collect());
    d.fw_bucket_bounds = fw;
    d.bw_bucket_bounds = bw;
    d.bucket_to_metric = vec![0; n];
    for (i, g) in merged.iter().enumerate() {
        for &b in g {
            d.bucket_to_metric[b] = i;
        }
    }
    d
}

/// estimates asked for on and off the optimal journeys
fn probe(e: &mut Ep, r: &mut R, alg: &str, td: &TD, pot: &mut impl TDPotential, s: u32, t: u32, dep: u32, cap: Option<u32>) {
    if e.dead {
        return;
    }
    let (arr, row) = td.cert(s, dep);
    let mut vs: Vec<u32> = (0..td.g.n as u32).filter(|&v| arr[v as usize] < INF).collect();
    vs.shuffle(r);
    let best = arr[t as usize];
    if best < INF && r.gen_bool(0.7) {
        // first of all along a journey arriving earliest
        let mut on = vec![];
        let mut v = t;
        while v != s {
            on.push(v);
            v = td.g.tail[row["p"][v as usize].as_u64().unwrap() as usize - 1];
        }
        on.push(s);
        on.shuffle(r);
        vs.retain(|v| !on.contains(v));
        on.extend(vs);
        vs = on;
    }
    if e.guard(alg, || pot.init(s, t, dep)).is_none() {
        return;
    }
    let mut out = vec![];
    let mut rows = vec![];
    for &v in vs.iter().take(12) {
        let at = arr[v as usize];
        if best == INF {
            // anything may be answered, but it has to be answered
            e.guard(alg, || pot.potential(v, Some(at)));
            continue;
        }
        let (a2, row2) = td.cert(v, at);
        let p = match e.guard(alg, || pot.potential(v, Some(at))) {
            None => return,
            Some(p) => p,
        };
        // without a time: valid for the departure and later
        let p0 = match e.guard(alg, || pot.potential(v, None)) {
            None => return,
            Some(p) => p,
        };
        if a2[t as usize] == best && rows.len() < 5 || cap.map_or(true, |_| rows.len() < 3) {
            out.push(json!([v, jo(p), jo(p0)]));
            rows.push(row2);
        }
    }
    if !out.is_empty() {
        e.ev(json!({"op": "tpots", "alg": alg, "t": t, "always": cap.is_none(), "row": row, "probes": out, "rows": rows}));
    }
}

pub fn run(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    let o = Opt { zero: r.gen_bool(0.4), parallel: false, loops: false, inf: false, maxw: 5 };
    let g = match ep % 6 {
        0 => gen_graph(r, 2, 4, &o),
        1 => gen_graph(r, 3, 9, &o),
        2 => gen_graph(r, 9, if thorough { 22 } else { 16 }, &o),
        _ => road_graph(r, &o, false),
    };
    // no parallel arcs, no loops
    let mut seen = std::collections::HashSet::new();
    let es: Vec<_> = (0..g.m()).filter(|&i| g.tail[i] != g.head[i] && seen.insert((g.tail[i], g.head[i]))).map(|i| (g.tail[i], g.head[i], g.w[i])).collect();
    let g = G::from_edges(g.n, es);
    if g.m() == 0 {
        return;
    }
    let fnk = if (ep / 6) % 2 == 0 { 0 } else { 2 };
    let whole = r.gen_bool(0.6);
    let scale = *[3u32, 100, 60_000, 600_000, 1_800_000].choose(r).unwrap();
    let mut td = if whole {
        let ttf = (0..g.m()).map(|_| whole_profile(r, scale)).collect();
        TD::with(r, &g, fnk, ttf, scale)
    } else {
        let ttf = (0..g.m()).map(|_| profile(r, scale)).collect();
        TD::with(r, &g, fnk, ttf, scale)
    };
    let t_live = td.times(r) % P;
    if fnk == 2 {
        // reports around now
        for l in td.live.iter_mut().flatten() {
            if r.gen_bool(0.7) {
                l.1 = (t_live + r.gen_range(0..7_200_000)).min(P - 1);
            }
        }
    }
    td.head(e);
    td.load(e);
    e.set("t_live", json!(t_live));
    let order = crate::fam_cch::order_for(r, &g, false);
    let gr = td.graph();
    let pg = td.pess_graph();
    let cch = match e.guard("cch", || CCH::fix_order_and_build(&gr, order)) {
        Some(c) => c,
        None => return,
    };
    if cch.num_arcs() == 0 {
        return;
    }
    let mut pairs = pick_pairs(r, g.n, 6);
    for i in 1..pairs.len() {
        // the same again, at another departure
        if r.gen_bool(0.25) {
            pairs[i] = pairs[i - 1];
        }
    }
    let deps: Vec<u32> = pairs.iter().map(|_| if fnk == 2 { t_live } else { td.times(r) % P }).collect();
    let lower: Vec<u32> = (0..g.m()).map(|a| gr.travel_time_function(a as u32).lower_bound()).collect();

    macro_rules! serve {
        ($alg:expr, $pot:expr) => {{
            macro_rules! with {
                ($graph:expr, $ops:expr, $ctor:ident) => {
                    if let Some(pot) = e.guard(concat!($alg, "-new"), || $pot) {
                        if let Some(mut srv) = e.guard($alg, || Server::$ctor($graph, pot, $ops)) {
                            for (i, &(s, t)) in pairs.iter().enumerate() {
                                tdq!(e, $alg, td, srv, s, t, deps[i], false);
                            }
                        }
                    }
                };
            }
            if fnk == 0 {
                if r.gen_bool(0.7) { with!(&gr, TDDijkstraOps::default(), new) } else { with!(&gr, TDDijkstraOps::default(), new_no_topo) }
            } else {
                if r.gen_bool(0.7) { with!(&pg, PessimisticLiveTDDijkstraOps::default(), new) } else { with!(&pg, PessimisticLiveTDDijkstraOps::default(), new_no_topo) }
            }
        }};
    }
    macro_rules! both {
        ($alg:expr, $always:expr, $pot:expr) => {{
            if !e.dead {
                if let Some(mut pot) = e.guard(concat!($alg, "-new"), || $pot) {
                    for (i, &(s, t)) in pairs.iter().enumerate() {
                        probe(e, r, $alg, &td, &mut pot, s, t, deps[i], if $always { None } else { Some(0) });
                    }
                }
                serve!($alg, $pot);
            }
        }};
    }
    let kind = if whole { r.gen_range(0..7) } else { r.gen_range(0..3) };
    match kind {
        0 => {
            let data = match e.guard("lower-bound", || CCHPotData::new(&cch, &BorrowedGraph::new(&g.fo, &g.head, &lower))) {
                Some(d) => d,
                None => return,
            };
            if r.gen_bool(0.3) {
                both!("td-lower-recycling", true, TDRecyclingPotential::new(data.forward_potential()));
            } else {
                both!("td-lower", true, data.forward_potential());
            }
        }
        1 | 2 => {
            let rs = some_ranges(r);
            let reduce = if r.gen_bool(0.4) { Some(r.gen_range(1..=rs.len() + 1)) } else { None };
            e.set("reduce", json!(reduce.unwrap_or(0)));
            let live = r.gen_bool(0.6);
            let make = || {
                let mut mmp = MultiMetricPreprocessed::new(&cch, rs.clone(), &gr, reduce);
                if fnk == 2 {
                    if live {
                        mmp.reserve_space_for_additional_metrics(1);
                        mmp.customize_live(&pg, t_live);
                    } else {
                        mmp.customize_simple_live(&pg, t_live);
                    }
                }
                MultiMetric::new(mmp)
            };
            if r.gen_bool(0.3) {
                both!("multi-metric-recycling", false, TDRecyclingPotential::new(make()));
            } else {
                both!("multi-metric", false, make());
            }
        }
        _ => {
            let (f, d, t) = td.arrays();
            let fl = match e.guard("floating", || floating_time_dependent::TDGraph::new(g.fo.clone(), g.head.clone(), f, d, t)) {
                Some(x) => x,
                None => return,
            };
            let k = *[24usize, 96, 96].choose(r).unwrap();
            let red = if r.gen_bool(0.4) { r.gen_range(1..=k) } else { k };
            let data = || {
                let d = if k == 24 { ftd_for_pot::customize::<24>(&cch, &fl) } else { ftd_for_pot::customize::<96>(&cch, &fl) };
                if red < k {
                    reduced(d, red)
                } else {
                    d
                }
            };
            if fnk == 0 {
                if r.gen_bool(0.3) {
                    both!("interval-min-recycling", false, TDRecyclingPotential::new(IntervalMinPotential::<(u32, u32)>::new(&cch, data())));
                } else {
                    both!("interval-min", false, IntervalMinPotential::<(u32, u32)>::new(&cch, data()));
                }
            } else if r.gen_bool(0.4) {
                both!("interval-min-simple-live", false, IntervalMinPotential::<(u32, u32)>::new_for_simple_live(&cch, data(), &pg, t_live));
            } else {
                both!("interval-min-live", false, IntervalMinPotential::<LiveToPredictedBounds>::new_for_live(&cch, data(), &pg, t_live));
            }
        }
    }
}
