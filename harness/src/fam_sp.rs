//! Static one-to-one / one-to-all searches: Dijkstra, bidirectional Dijkstra.
use crate::util::*;
use rand::prelude::*;
use rust_road_router::algo::{a_star::*, dijkstra::generic_dijkstra::*, dijkstra::query::*, dijkstra::query::dijkstra as dij, dijkstra::*, *};
use rust_road_router::datastr::graph::*;
use serde_json::json;

pub fn pick_graph(r: &mut R, ep: u64, thorough: bool, o: &Opt) -> G {
    if thorough && ep < 4096 {
        return tiny_graph(ep as usize);
    }
    if ep % 24 == 15 {
        // larger than the bounded disconnectedness pre-check (200 nodes)
        return gen_graph(r, 205, 300, o);
    }
    match ep % 8 {
        0 => tiny_graph(r.gen_range(0..4096)),
        1 | 2 | 3 => gen_graph(r, 1, 7, o),
        4 | 5 => gen_graph(r, 6, 14, o),
        6 => gen_graph(r, 15, 30, o),
        _ => gen_graph(r, 30, if thorough { 120 } else { 70 }, o),
    }
}

fn settle(e: &mut Ep, g: &OwnedGraph, s: u32) {
    // step-level trace of one search: every settled node, its key and the queue afterwards
    let r = e.guard("DijkstraRun", || {
        let n = g.num_nodes();
        let mut data: DijkstraData<Weight> = DijkstraData::new(n);
        let mut ops = DefaultOps();
        let mut run = DijkstraRun::query(g, &mut data, &mut ops, DijkstraInit::from(s));
        let mut steps = vec![];
        while let Some(v) = run.next() {
            let d = *run.tentative_distance(v);
            let mut q: Vec<(u32, u32)> = run.queue().elements().iter().map(|st| (st.node, st.key)).collect();
            q.sort();
            steps.push(json!({"v": v, "d": jw(d), "q": q.iter().map(|x| vec![x.0 as i64, jw(x.1)]).collect::<Vec<_>>()}));
        }
        let pred: Vec<u32> = (0..n).map(|v| run.predecessor(v as u32)).collect();
        (steps, pred)
    });
    if let Some((steps, _)) = r {
        e.ev(json!({"op": "sbegin", "s": s}));
        for x in steps {
            e.ev(json!({"op": "settle", "v": x["v"], "d": x["d"], "q": x["q"]}));
        }
        e.ev(json!({"op": "send"}));
    }
}

pub fn run(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    let o = Opt::rand(r);
    let g = pick_graph(r, ep, thorough, &o);
    let big = g.n > 16;
    let pairs = pick_pairs(r, g.n, if big { 14 } else { 40 });
    let srcs: Vec<u32> = if big { pairs.iter().map(|p| p.0).collect() } else { all_sources(&g) };
    e.graph(&g);
    e.metrics(vec![metric_json(&g, &srcs)]);
    e.ev(json!({"op": "metric", "k": 1}));
    let og = g.owned();
    // step level
    for i in 0..2 {
        let s = srcs[i % srcs.len()];
        settle(e, &og, s);
    }
    // a single reused server for everything
    if let Some(mut srv) = e.guard("new", || dij::Server::<OwnedGraph>::new(og.clone())) {
        for (i, &(s, t)) in pairs.iter().enumerate() {
            query!(e, "dijkstra", srv, s, t);
            if i % 4 == 0 {
                let n = g.n;
                if let Some((d, p)) = e.guard("one_to_all", || {
                    let w = srv.one_to_all(s);
                    let d: Vec<u32> = (0..n).map(|v| w.distance(v as u32)).collect();
                    let p: Vec<u32> = (0..n).map(|v| w.predecessor(v as u32)).collect();
                    (d, p)
                }) {
                    let pred: Vec<i64> = (0..n).map(|v| if d[v] < INF && v as u32 != s { p[v] as i64 } else { -1 }).collect();
                    e.ev(json!({"op": "all", "alg": "one_to_all", "s": s, "d": d.iter().map(|&x| jw(x)).collect::<Vec<_>>(), "pred": pred}));
                }
            }
            if i % 7 == 0 {
                let mut ranks: Vec<(u32, u32, usize)> = vec![];
                if e.guard("ranks", || srv.ranks(s, |v, d, k| ranks.push((v, d, k)))).is_some() {
                    e.ev(json!({"op": "ranks", "s": s, "r": ranks.iter().map(|x| vec![x.0 as i64, jw(x.1), x.2 as i64]).collect::<Vec<_>>()}));
                }
            }
        }
    }
    // other arc types
    if let Some(mut srv) = e.guard("new", || dij::Server::<OwnedGraph, DefaultOpsByEdgeId>::new(og.clone())) {
        for &(s, t) in pairs.iter().take(8) {
            query!(e, "dijkstra-byedge", srv, s, t);
        }
    }
    if let Some(mut srv) = e.guard("new", || dij::Server::<OwnedGraph, DefaultOpsWithLinkPath>::new(og.clone())) {
        for &(s, t) in pairs.iter().take(8) {
            let x = e.guard("edge_path", || {
                let mut q = srv.query(Query { from: s, to: t });
                let d = q.distance();
                let p = q.node_path();
                let ep = q.edge_path().map(|v| v.into_iter().map(|EdgeIdT(x)| x).collect::<Vec<u32>>());
                (d, p, ep)
            });
            if let Some((d, p, ed)) = x {
                e.ev(json!({"op": "qe", "alg": "dijkstra-link", "s": s, "t": t, "d": jo(d), "path": p.unwrap_or_default(), "ep": ed.unwrap_or_default()}));
            }
        }
    }
    // pre-check wrapper
    if let Some(mut srv) = e.guard("catch", || disconnected_targets::CatchDisconnectedTarget::new(dij::Server::<OwnedGraph>::new(og.clone()), &og)) {
        for &(s, t) in pairs.iter().take(12) {
            query!(e, "catch", srv, s, t);
        }
    }
}

pub fn run_bidir(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    let o = Opt::rand(r);
    let g = pick_graph(r, ep, thorough, &o);
    let big = g.n > 16;
    let pairs = pick_pairs(r, g.n, if big { 14 } else { 40 });
    let srcs: Vec<u32> = if big { pairs.iter().map(|p| p.0).collect() } else { all_sources(&g) };
    e.graph(&g);
    e.metrics(vec![metric_json(&g, &srcs)]);
    e.ev(json!({"op": "metric", "k": 1}));
    let og = g.owned();
    if let Some(mut srv) = e.guard("new", || bidirectional_dijkstra::Server::<_, _, BiDirZeroPot, ChooseMinKeyDir>::new(og.clone())) {
        for &(s, t) in &pairs {
            query!(e, "bidir-min", srv, s, t);
        }
    }
    if let Some(mut srv) = e.guard("new", || bidirectional_dijkstra::Server::<_, _, BiDirZeroPot, AlternatingDirs>::new(og.clone())) {
        for &(s, t) in &pairs {
            query!(e, "bidir-alt", srv, s, t);
        }
        for &(s, t) in pairs.iter().take(12) {
            let d = g.cert(s).0[t as usize];
            let cap = match r.gen_range(0..5) {
                0 => d.saturating_add(1).min(INF),
                1 => d,
                2 => d / 2,
                3 => INF,
                _ => r.gen_range(0..=o.maxw.saturating_mul(4).min(INF)),
            };
            if let Some(x) = e.guard("cap", || srv.distance_with_cap(s, t, cap, |_, _, _| ())) {
                e.ev(json!({"op": "cap", "s": s, "t": t, "cap": jw(cap), "d": jo(x)}));
            }
        }
    }
}
