//! Goal-directed search: potentials, A*, bidirectional A*.
use crate::util::*;
use rand::prelude::*;
use rust_road_router::algo::{
    a_star::*, alt::*, ch_potentials::*, contraction_hierarchy, customizable_contraction_hierarchy::*, dijkstra::query::dijkstra as dij, dijkstra::query::*, dijkstra::*, *,
};
use rust_road_router::datastr::graph::{first_out_graph::OwnedGraph, *};
use rust_road_router::datastr::node_order::NodeOrder;
use serde_json::json;

/// graph with its lower bound metric and an actual metric that is nowhere smaller
pub fn two_metrics(r: &mut R, g: &G, inf: bool) -> G {
    let kind = r.gen_range(0..4);
    let w = g
        .w
        .iter()
        .map(|&w| match kind {
            _ if w >= INF => INF,
            0 => w,
            1 => (w + r.gen_range(0..=w / 2 + 1)).min(50_000_000),
            2 => {
                if r.gen_bool(0.2) {
                    (w * 3 + r.gen_range(0..4)).min(50_000_000)
                } else {
                    w
                }
            }
            _ => {
                if inf && r.gen_bool(0.1) {
                    INF
                } else {
                    (w + r.gen_range(0..3)).min(50_000_000)
                }
            }
        })
        .collect();
    g.with_w(w)
}

fn pots<P: Potential>(e: &mut Ep, r: &mut R, alg: &str, n: usize, p: &mut P, exact: bool, map: Option<&NodeOrder>) {
    for _ in 0..4 {
        let t = r.gen_range(0..n as u32);
        let mt = map.map(|o| o.rank(t)).unwrap_or(t);
        if e.guard(alg, || p.init(mt)).is_none() {
            return;
        }
        let full = r.gen_bool(0.5);
        let k = if full { n } else { r.gen_range(1..=n) };
        let mut nodes: Vec<u32> = (0..n as u32).collect();
        nodes.shuffle(r);
        if r.gen_bool(0.3) {
            let again = nodes.clone();
            nodes.extend(again);
        }
        for &v in nodes.iter().take(k) {
            let mv = map.map(|o| o.rank(v)).unwrap_or(v);
            if let Some(x) = e.guard(alg, || p.potential(mv)) {
                e.ev(json!({"op": "pot", "alg": alg, "v": v, "t": t, "p": jo(x), "exact": exact}));
            }
        }
    }
}

/// potentials of the reversed problem: estimates from a source. Reported as D(s, v)
fn pots_back<P: Potential>(e: &mut Ep, r: &mut R, alg: &str, n: usize, p: &mut P, exact: bool) {
    for _ in 0..3 {
        let s = r.gen_range(0..n as u32);
        if e.guard(alg, || p.init(s)).is_none() {
            return;
        }
        for _ in 0..n {
            let v = r.gen_range(0..n as u32);
            if let Some(x) = e.guard(alg, || p.potential(v)) {
                e.ev(json!({"op": "pot", "alg": alg, "v": s, "t": v, "p": jo(x), "exact": exact}));
            }
        }
    }
}

pub fn small_graph(r: &mut R, ep: u64, thorough: bool, o: &Opt) -> G {
    if thorough && ep < 4096 {
        return tiny_graph(ep as usize);
    }
    match ep % 8 {
        0 => tiny_graph(r.gen_range(0..4096)),
        1 | 2 | 3 => gen_graph(r, 1, 7, o),
        4 | 5 => gen_graph(r, 6, 14, o),
        6 => gen_graph(r, 10, 20, o),
        _ => gen_graph(r, 15, if thorough { 40 } else { 28 }, o),
    }
}

pub fn run(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    let o = Opt::rand(r);
    let lo = small_graph(r, ep, thorough, &o);
    let n = lo.n;
    let hi = two_metrics(r, &lo, true);
    e.graph(&lo);
    let srcs = all_sources(&lo);
    e.metrics(vec![metric_json(&lo, &srcs), metric_json(&hi, &srcs)]);
    e.ev(json!({"op": "metric", "k": 1}));
    let (lg, hg) = (lo.owned(), hi.owned());
    let order = some_order(r, &lo);
    let cch = match e.guard("cch", || CCH::fix_order_and_build(&lg, order.clone())) {
        Some(c) => c,
        None => return,
    };
    let data = match e.guard("potdata", || CCHPotData::new(&cch, &lg)) {
        Some(c) => c,
        None => return,
    };
    // -- the estimates themselves
    {
        let mut p = data.forward_potential();
        pots(e, r, "cch-fw", n, &mut p, true, None);
        let mut p = data.backward_potential();
        pots_back(e, r, "cch-bw", n, &mut p, true);
        let mut p = data.ch_forward_potential();
        pots(e, r, "ch-fw", n, &mut p, true, None);
        let mut p = RecyclingPotential::new(data.forward_potential());
        pots(e, r, "recycling", n, &mut p, true, None);
        let mut p = BaselinePotential::new(&lg);
        pots(e, r, "baseline", n, &mut p, true, None);
        let o2 = rand_order(r, n);
        let mut p = PotentialForPermutated { potential: data.forward_potential(), order: o2.clone() };
        pots(e, r, "permutated", n, &mut p, true, Some(&o2));
        if r.gen_bool(0.5) {
            let mut p = data.forward_path_potential();
            pots(e, r, "path-fw", n, &mut p, true, Some(cch.node_order()));
        }
    }
    // -- the shortest path tree unpacked through the hierarchy
    {
        let ord = cch.node_order();
        let mut p = data.forward_path_potential();
        for _ in 0..3 {
            let t = r.gen_range(0..n as u32);
            if e.guard("path-pot", || p.init(ord.rank(t))).is_none() {
                return;
            }
            for _ in 0..n.min(8) {
                let v = r.gen_range(0..n as u32);
                let x = e.guard("path-pot", || {
                    let d = p.potential(ord.rank(v));
                    let mut path = vec![];
                    if d.is_some() {
                        p.unpack_path(NodeIdT(ord.rank(v)));
                        let mut c = ord.rank(v);
                        path.push(ord.node(c));
                        while c != ord.rank(t) && path.len() <= n + 1 {
                            c = p.target_shortest_path_tree()[c as usize].0;
                            path.push(ord.node(c));
                        }
                    }
                    (d, path)
                });
                if let Some((d, path)) = x {
                    e.ev(json!({"op": "q", "alg": "path-pot-unpack", "s": v, "t": t, "d": jo(d), "path": path}));
                }
            }
        }
        let mut p = data.backward_path_potential();
        for _ in 0..2 {
            let s = r.gen_range(0..n as u32);
            if e.guard("path-pot-bw", || p.init(ord.rank(s))).is_none() {
                return;
            }
            for _ in 0..n.min(6) {
                let v = r.gen_range(0..n as u32);
                let x = e.guard("path-pot-bw", || {
                    let d = p.potential(ord.rank(v));
                    let mut path = vec![];
                    if d.is_some() {
                        p.unpack_path(NodeIdT(ord.rank(v)));
                        let mut c = ord.rank(v);
                        path.push(ord.node(c));
                        while c != ord.rank(s) && path.len() <= n + 1 {
                            c = p.target_shortest_path_tree()[c as usize].0;
                            path.push(ord.node(c));
                        }
                        path.reverse();
                    }
                    (d, path)
                });
                if let Some((d, path)) = x {
                    e.ev(json!({"op": "q", "alg": "path-pot-bw-unpack", "s": s, "t": v, "d": jo(d), "path": path}));
                }
            }
        }
    }
    // -- many targets at once
    {
        let mut p = BucketCHPotential::new(data.customized().forward_graph(), data.customized().backward_graph(), cch.node_order().clone());
        for _ in 0..2 {
            let mut ts: Vec<u32> = (0..n as u32).collect();
            ts.shuffle(r);
            ts.truncate(r.gen_range(1..=n));
            if e.guard("bucket-pot", || p.init(&ts)).is_none() {
                return;
            }
            for _ in 0..n.min(8) {
                let v = r.gen_range(0..n as u32);
                if let Some(ds) = e.guard("bucket-pot", || p.potential(v).to_vec()) {
                    e.ev(json!({"op": "many", "alg": "bucket-pot", "s": v, "ts": ts, "ds": ds.iter().map(|&d| jw(d.min(INF))).collect::<Vec<_>>()}));
                }
            }
        }
    }
    // -- landmarks
    let k = r.gen_range(1..=3usize);
    let strongly = (0..n).all(|s| e_reach(&lo, s as u32));
    // farthest selection needs that many pairwise distinct nodes to exist
    let far = strongly && n > k + 1 && lo.w.iter().all(|&w| w > 0);
    let alt = e.guard("alt", || {
        let l = if far && r.gen_bool(0.5) { ALTPotData::farthest_landmarks(&lg, k, r.gen_range(0..n as u32)) } else { (0..k).map(|_| r.gen_range(0..n as u32)).collect() };
        ALTPotData::new(&lg, l)
    });
    let alt_avoid = if strongly { e.guard("alt-avoid", || ALTPotData::new_with_avoid(&lg, k, r)) } else { None };
    for a in [alt.as_ref(), alt_avoid.as_ref()].iter().flatten() {
        let mut p = a.forward_potential();
        pots(e, r, "alt", n, &mut p, false, None);
        let mut p = a.backward_potential();
        pots_back(e, r, "alt-bw", n, &mut p, false);
    }
    // -- searches, in the lower bound metric and in the costlier one
    let pairs = pick_pairs(r, n, 16);
    for (k, g) in [(1, &lg), (2, &hg)] {
        e.ev(json!({"op": "metric", "k": k}));
        macro_rules! uni {
            ($alg:expr, $p:expr) => {
                if let Some(mut srv) = e.guard($alg, || dij::Server::<OwnedGraph, DefaultOps, _>::with_potential(g.clone(), $p)) {
                    for &(s, t) in &pairs {
                        query!(e, $alg, srv, s, t);
                    }
                }
            };
        }
        uni!("astar-cch", data.forward_potential());
        uni!("astar-ch", data.ch_forward_potential());
        uni!("astar-recycling", RecyclingPotential::new(data.forward_potential()));
        uni!("astar-baseline", BaselinePotential::new(&lg));
        if let Some(a) = &alt {
            uni!("astar-alt", a.forward_potential());
        }
        macro_rules! bi {
            ($alg:expr, $p:expr, $d:ty) => {
                if let Some(mut srv) = e.guard($alg, || bidirectional_dijkstra::Server::<_, _, _, $d>::new_with_potentials(g.clone(), $p)) {
                    for &(s, t) in &pairs {
                        query!(e, $alg, srv, s, t);
                    }
                }
            };
        }
        bi!("bi-sym-ip-min", SymmetricBiDirPotential::<_, _, true>::new(data.forward_potential(), data.backward_potential()), ChooseMinKeyDir);
        bi!("bi-sym-ip-alt", SymmetricBiDirPotential::<_, _, true>::new(data.forward_potential(), data.backward_potential()), AlternatingDirs);
        bi!("bi-sym-min", SymmetricBiDirPotential::<_, _, false>::new(data.forward_potential(), data.backward_potential()), ChooseMinKeyDir);
        bi!("bi-sym-alt", SymmetricBiDirPotential::<_, _, false>::new(data.forward_potential(), data.backward_potential()), AlternatingDirs);
        bi!("bi-avg-min", AveragePotential::<_, _, false>::new(data.forward_potential(), data.backward_potential()), ChooseMinKeyDir);
        bi!("bi-avg-alt", AveragePotential::<_, _, false>::new(data.forward_potential(), data.backward_potential()), AlternatingDirs);
        bi!("bi-avg-ip-min", AveragePotential::<_, _, true>::new(data.forward_potential(), data.backward_potential()), ChooseMinKeyDir);
        bi!("bi-avg-ip-alt", AveragePotential::<_, _, true>::new(data.forward_potential(), data.backward_potential()), AlternatingDirs);
        if let Some(a) = &alt {
            bi!("bi-alt-sym", SymmetricBiDirPotential::<_, _, true>::new(a.forward_potential(), a.backward_potential()), AlternatingDirs);
            bi!("bi-alt-avg", AveragePotential::<_, _, false>::new(a.forward_potential(), a.backward_potential()), ChooseMinKeyDir);
        }
    }
    let _ = contraction_hierarchy::contract::<OwnedGraph>;
}

fn e_reach(g: &G, s: u32) -> bool {
    g.cert(s).0.iter().all(|&d| d < INF)
}
