//! Witness-based hierarchies, one-to-many searches, hub labels, nearest neighbours.
use crate::fam_cch::{cch_graph, nd_order, order_for, pool, THREADS};
use crate::fam_pot::small_graph;
use crate::util::*;
use rand::prelude::*;
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::{contraction_hierarchy, customizable_contraction_hierarchy::*, hl::HubLabels, rphast::*, *};
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::io::*;
use serde_json::{json, Value};

fn simple(g: G) -> G {
    let mut seen = std::collections::HashSet::new();
    let e = (0..g.m()).map(|i| (g.tail[i], g.head[i], g.w[i])).filter(|x| seen.insert((x.0, x.1))).collect();
    G::from_edges(g.n, e)
}

fn links(g: &first_out_graph::OwnedGraph) -> Vec<Vec<(u32, u32)>> {
    (0..g.num_nodes() as u32).map(|u| LinkIterable::<Link>::link_iter(g, u).map(|l| (l.node, l.weight)).collect()).collect()
}

/// the same graph with all arcs between remaining nodes, from both arrays
fn overlay_json(fw: &[Vec<(u32, u32)>], bw: &[Vec<(u32, u32)>], cnt: usize) -> Value {
    let n = fw.len();
    let mut e = vec![];
    let mut b = vec![];
    for u in cnt..n {
        for &(v, w) in &fw[u] {
            e.push((u as u32, v, w));
        }
        for &(v, w) in &bw[u] {
            b.push((v, u as u32, w));
        }
    }
    b.sort();
    let g2 = G::from_edges(n, e.clone());
    let rows: Vec<Value> = (cnt as u32..n as u32)
        .map(|s| {
            let (d, p, o) = g2.cert(s);
            json!({"s": s, "d": d, "p": p, "o": o})
        })
        .collect();
    json!({"n": n, "fo": g2.fo, "tail": g2.tail, "head": g2.head, "w": g2.w.iter().map(|&x| jw(x)).collect::<Vec<_>>(), "ref": rows, "back": b.iter().map(|x| (x.0, x.1, jw(x.2))).collect::<Vec<_>>()})
}

pub fn run_ch(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    let mut o = Opt::rand(r);
    o.parallel = false;
    let big = ep % 10 == 9;
    let g = if thorough && ep < 4096 {
        tiny_graph(ep as usize)
    } else if big {
        gen_graph(r, 20, 40, &o)
    } else {
        small_graph(r, ep, false, &o)
    };
    let g = simple(g);
    let graph = g.owned();
    e.graph(&g);
    let all = all_sources(&g);
    e.metrics(vec![metric_json(&g, &all)]);
    e.ev(json!({"op": "metric", "k": 1}));
    let order = if big { nd_order(&g) } else { some_order(r, &g) };
    // partial contraction at every stage
    let stages: Vec<usize> = if g.n <= 6 { (0..=g.n).collect() } else { (0..3).map(|_| r.gen_range(0..=g.n)).collect() };
    for cnt in stages {
        if let Some((f, b)) = e.guard("overlay", || contraction_hierarchy::overlay(&graph, order.clone(), cnt)) {
            let v = overlay_json(&links(&f), &links(&b), cnt);
            e.ev(json!({"op": "overlay", "count": cnt, "order": order.order(), "g": v}));
        }
    }
    let Some(ch) = e.guard("contract", || contraction_hierarchy::contract(&graph, order.clone())) else { return };
    let mut srv = contraction_hierarchy::query::Server::new(ch, order.clone());
    for (s, t) in pick_pairs(r, g.n, 36) {
        if r.gen_bool(0.2) {
            query_d!(e, "ch", srv, s, t);
        } else {
            query!(e, "ch", srv, s, t);
        }
    }
    // a hierarchy given as an already augmented graph
    if let Some((f, b)) = e.guard("overlay", || contraction_hierarchy::overlay(&graph, order.clone(), g.n)) {
        let mut aug = vec![];
        for (u, l) in links(&f).into_iter().enumerate() {
            aug.extend(l.into_iter().map(|(v, w)| (order.node(u as u32), order.node(v), w)));
        }
        for (u, l) in links(&b).into_iter().enumerate() {
            aug.extend(l.into_iter().map(|(v, w)| (order.node(v), order.node(u as u32), w)));
        }
        aug.shuffle(r);
        let ag = G::from_edges(g.n, aug).owned();
        if let Some(ch) = e.guard("from_contracted_graph", || contraction_hierarchy::ContractionHierarchy::from_contracted_graph(ag, &order)) {
            let mut srv = contraction_hierarchy::query::Server::new(ch, NodeOrder::identity(g.n));
            for (s, t) in pick_pairs(r, g.n, 12) {
                query_d!(e, "ch-augmented", srv, s, t);
            }
        }
    }
}

fn some_targets(r: &mut R, n: usize) -> Vec<u32> {
    let mut t: Vec<u32> = (0..n as u32).collect();
    t.shuffle(r);
    let k = if r.gen_bool(0.2) { n } else { r.gen_range(0..=n) };
    t.truncate(k);
    t
}

fn rph<GF: LinkIterGraph, GB: LinkIterGraph>(e: &mut Ep, r: &mut R, alg: &str, n: usize, fw: GF, bw: GB, order: NodeOrder) {
    let Some(mut ph) = e.guard(alg, || RPHAST::new(fw, bw, order)) else { return };
    let mut q = RPHASTQuery::new(&ph);
    let mut sse = SSERPHASTQuery::new(&ph);
    for _ in 0..4 {
        let mut ts = some_targets(r, n);
        if r.gen_bool(0.2) && !ts.is_empty() {
            let d = *ts.choose(r).unwrap();
            ts.push(d);
        }
        if e.guard(alg, || ph.select(&ts)).is_none() {
            return;
        }
        for _ in 0..r.gen_range(1..4) {
            let s = r.gen_range(0..n as u32);
            if let Some(ds) = e.guard(alg, || {
                let res = q.query(s, &ph);
                ts.iter().map(|&t| jw(res.distance(t))).collect::<Vec<_>>()
            }) {
                e.ev(json!({"op": "many", "alg": alg, "s": s, "ts": ts, "ds": ds}));
            }
        }
        for _ in 0..r.gen_range(0..3) {
            let k = r.gen_range(1..=9.min(n));
            let mut ss: Vec<u32> = (0..n as u32).collect();
            ss.shuffle(r);
            ss.truncate(k);
            // several sources at the same place
            if r.gen_bool(0.25) && !ss.is_empty() {
                let d = *ss.choose(r).unwrap();
                ss.insert(r.gen_range(0..=ss.len()), d);
            }
            if let Some(d) = e.guard(alg, || {
                let res = sse.query(&ss, &ph);
                ts.iter().map(|&t| res.distances(t).iter().map(|&x| jw(x)).collect::<Vec<_>>()).collect::<Vec<_>>()
            }) {
                for (i, &s) in ss.iter().enumerate() {
                    e.ev(json!({"op": "many", "alg": format!("{}-batch", alg), "s": s, "ts": ts, "ds": d.iter().map(|x| x.get(i).copied().unwrap_or(-9)).collect::<Vec<_>>()}));
                }
            }
        }
    }
}

/// potentials of a hierarchy as many-to-many and many-to-one distances
fn lazy_many<GF: LinkIterGraph + Clone, GB: LinkIterGraph + Clone>(e: &mut Ep, r: &mut R, alg: &str, n: usize, fw: GF, bw: GB, order: NodeOrder) {
    use rust_road_router::algo::a_star::Potential;
    let mut m = BucketCHPotential::new(fw.clone(), bw.clone(), order.clone());
    for _ in 0..3 {
        let mut ts = some_targets(r, n);
        if r.gen_bool(0.3) && !ts.is_empty() {
            let d = *ts.choose(r).unwrap();
            ts.insert(r.gen_range(0..=ts.len()), d);
        }
        if e.guard(alg, || m.init(&ts)).is_none() {
            return;
        }
        for _ in 0..r.gen_range(1..5) {
            let s = r.gen_range(0..n as u32);
            if let Some(ds) = e.guard(alg, || m.potential(s).iter().map(|&x| jw(x)).collect::<Vec<_>>()) {
                e.ev(json!({"op": "many", "alg": format!("{}-bucket", alg), "s": s, "ts": ts, "ds": ds}));
            }
        }
    }
    let mut p = CHPotential::new(fw, bw, order);
    for _ in 0..3 {
        let t = r.gen_range(0..n as u32);
        e.guard(alg, || p.init(t));
        for _ in 0..r.gen_range(1..5) {
            let v = r.gen_range(0..n as u32);
            if let Some(d) = e.guard(alg, || p.potential(v)) {
                e.ev(json!({"op": "pot", "alg": format!("{}-lazy", alg), "v": v, "t": t, "exact": true, "p": jo(d)}));
            }
        }
    }
}

fn labels(e: &mut Ep, r: &mut R, alg: &str, n: usize, hl: &HubLabels, order: &NodeOrder) {
    for (s, t) in pick_pairs(r, n, 64) {
        if let Some(d) = e.guard(alg, || hl.dist(order.rank(s), order.rank(t))) {
            e.ev(json!({"op": "qd", "alg": alg, "s": s, "t": t, "d": jo(d)}));
        }
        if let Some(Some((h, d))) = e.guard(alg, || hl.hub_and_dist(order.rank(s), order.rank(t))) {
            e.ev(json!({"op": "hub", "alg": alg, "s": s, "t": t, "d": jw(d), "via": order.node(h)}));
        }
    }
}

pub fn run_many(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    let (g, big) = if thorough && ep < 4096 { (tiny_graph(ep as usize), false) } else { cch_graph(r, ep, true) };
    if big && g.n > 70 {
        // keep certificates affordable
        let g = gen_graph(r, 20, 45, &Opt { zero: true, parallel: true, loops: true, inf: false, maxw: 9 });
        return run_many_on(e, r, g, true);
    }
    run_many_on(e, r, g, big)
}

fn run_many_on(e: &mut Ep, r: &mut R, g: G, big: bool) {
    let graph = g.owned();
    e.graph(&g);
    e.metrics(vec![metric_json(&g, &all_sources(&g))]);
    e.ev(json!({"op": "metric", "k": 1}));
    let order = order_for(r, &g, big);
    let Some(cch) = e.guard("fix_order_and_build", || CCH::fix_order_and_build(&graph, order.clone())) else { return };
    let k = *THREADS.choose(r).unwrap();
    let co = cch.node_order().clone();
    if let Some(c) = e.guard("customize", || pool(k).install(|| customize(&cch, &graph))) {
        let (f, b) = (c.forward_graph(), c.backward_graph());
        rph(e, r, "rphast-basic", g.n, f, b, co.clone());
    }
    if let Some(c) = e.guard("customize_perfect", || pool(k).install(|| customize_perfect(customize(&cch, &graph)))) {
        rph(e, r, "rphast-perfect", g.n, c.forward_graph(), c.backward_graph(), co.clone());
        lazy_many(e, r, "lazy-perfect", g.n, c.forward_graph(), c.backward_graph(), co.clone());
        // reversed roles: distances towards the source are distances from the source in the reversed graph
        if let Some(hl) = e.guard("hl", || HubLabels::new(&c.forward_graph(), &c.backward_graph())) {
            labels(e, r, "hl", g.n, &hl, &co);
        }
    }
    // lazy form, as one-to-many
    if let Some(pd) = e.guard("CCHPotData", || CCHPotData::new(&cch, &graph)) {
        let mut p = pd.backward_potential();
        for _ in 0..3 {
            use rust_road_router::algo::a_star::Potential;
            let s = r.gen_range(0..g.n as u32);
            e.guard("lazy", || p.init(s));
            let ts = some_targets(r, g.n);
            if let Some(ds) = e.guard("lazy", || ts.iter().map(|&t| p.potential(t).map(jw).unwrap_or(INF as i64)).collect::<Vec<_>>()) {
                e.ev(json!({"op": "many", "alg": "lazy", "s": s, "ts": ts, "ds": ds}));
            }
        }
    }
    // on a witness-based hierarchy
    let fin = g.w.iter().all(|&w| w < INF);
    let mut seen = std::collections::HashSet::new();
    if fin && (0..g.m()).all(|i| seen.insert((g.tail[i], g.head[i]))) {
        if let Some((f, b)) = e.guard("overlay", || contraction_hierarchy::overlay(&graph, order.clone(), g.n)) {
            if let Some(hl) = e.guard("hl-ch", || HubLabels::new(&f, &b)) {
                labels(e, r, "hl-ch", g.n, &hl, &order);
            }
            // stored and read back
            if r.gen_bool(0.1) {
                let dir = crate::fam_io::Scratch::new("chpot");
                let mut w = e.guard("store", || {
                    for (k, x) in [("forward", &f), ("backward", &b)] {
                        x.first_out().write_to(&dir.0.join(format!("{}_first_out", k))).unwrap();
                        x.head().write_to(&dir.0.join(format!("{}_head", k))).unwrap();
                        x.weight().write_to(&dir.0.join(format!("{}_weight", k))).unwrap();
                    }
                    order.order().write_to(&dir.0.join("order")).unwrap();
                    (CHPotLoader::reconstruct_from(&dir.0).unwrap(), CHPotential::<OwnedGraph, OwnedGraph>::reconstruct_from(&dir.0).unwrap())
                });
                if let Some((l, pot)) = w.as_mut() {
                    lazy_many(e, r, "lazy-loaded", g.n, l.forward_graph(), l.backward_graph(), l.order().clone());
                    let t = r.gen_range(0..g.n as u32);
                    for v in 0..g.n.min(4) as u32 {
                        use rust_road_router::algo::a_star::Potential;
                        if let Some([d, d2, d3]) = e.guard("loaded", || {
                            let (mut to, mut from) = l.potentials();
                            pot.init(t);
                            to.init(t);
                            from.init(v);
                            [pot.potential(v), to.potential(v), from.potential(t)]
                        }) {
                            e.ev(json!({"op": "pot", "alg": "loaded", "v": v, "t": t, "exact": true, "p": jo(d)}));
                            e.ev(json!({"op": "pot", "alg": "loaded-to", "v": v, "t": t, "exact": true, "p": jo(d2)}));
                            e.ev(json!({"op": "pot", "alg": "loaded-from", "v": v, "t": t, "exact": true, "p": jo(d3)}));
                        }
                    }
                }
            }
            lazy_many(e, r, "lazy-ch", g.n, f.clone(), b.clone(), order.clone());
            rph(e, r, "rphast-ch", g.n, f, b, order.clone());
        }
    }
}

pub fn run_knn(e: &mut Ep, r: &mut R, ep: u64, _thorough: bool) {
    use rust_road_router::algo::customizable_contraction_hierarchy::query::nearest_neighbor::*;
    use rust_road_router::algo::dijkstra::query::nearest_neighbor::DijkstraNearestNeighbor;
    let mut o = Opt::rand(r);
    o.inf = r.gen_bool(0.15);
    let big = ep % 3 == 0;
    let g = if big { gen_graph(r, 18, 60, &o) } else { gen_graph(r, 1, 16, &o) };
    let graph = g.owned();
    e.graph(&g);
    e.metrics(vec![metric_json(&g, &all_sources(&g))]);
    e.ev(json!({"op": "metric", "k": 1}));
    let order = order_for(r, &g, big);
    let Some(cch) = e.guard("fix_order_and_build", || CCH::fix_order_and_build(&graph, order.clone())) else { return };
    let Some(cp) = e.guard("customize_perfect", || customize_perfect(customize(&cch, &graph))) else { return };
    let Some(pd) = e.guard("CCHPotData", || CCHPotData::new(&cch, &graph)) else { return };
    let mut dj = DijkstraNearestNeighbor::new(g.owned());
    let mut sep = SeparatorBasedNearestNeighbor::new(&cch, pd.backward_potential());
    let mut lazy = LazyRphastNearestNeighbor::new(pd.backward_potential());
    let mut bcch = BCCHNearestNeighbor::new(&cp);
    for _ in 0..4 {
        let mut ts = some_targets(r, g.n);
        if r.gen_bool(0.4) {
            // clustered: ball around a node
            let c = r.gen_range(0..g.n as u32);
            let d = g.cert(c).0;
            let mut by: Vec<u32> = (0..g.n as u32).collect();
            by.sort_by_key(|&v| d[v as usize]);
            by.truncate(ts.len().max(1));
            ts = by;
            ts.shuffle(r);
        }
        let qs: Vec<(u32, usize)> = (0..r.gen_range(1..5))
            .map(|_| {
                let k = match r.gen_range(0..5) {
                    0 => ts.len().max(1),
                    1 => ts.len() + 2,
                    2 => 1,
                    _ => r.gen_range(1..=ts.len().max(1)),
                };
                (r.gen_range(0..g.n as u32), k)
            })
            .collect();
        // the heap-based methods hand out their result as an unordered collection
        macro_rules! log {
            ($alg:expr, $sort:expr, $s:expr, $k:expr, $res:expr) => {
                if let Some(res) = e.guard($alg, || $res) {
                    let mut res: Vec<(u32, u32)> = res;
                    if $sort {
                        res.sort();
                    }
                    e.ev(json!({"op": "knn", "alg": $alg, "s": $s, "k": $k, "targets": ts, "res": res.iter().map(|x| (jw(x.0), x.1)).collect::<Vec<_>>()}));
                }
            };
        }
        {
            let mut sel = dj.select_targets(&ts);
            for &(s, k) in &qs {
                log!("dijkstra", false, s, k, sel.query(s, k));
            }
        }
        if let Some(mut sel) = e.guard("separator", || sep.select_targets(&ts)) {
            for &(s, k) in &qs {
                log!("separator", true, s, k, sel.query(s, k));
            }
        }
        for &(s, k) in &qs {
            log!("lazy", true, s, k, lazy.query(s, &ts, k));
        }
        if let Some(mut sel) = e.guard("bcch", || bcch.select_targets(&ts)) {
            for &(s, k) in &qs {
                log!("bcch", true, s, k, sel.query(s, k));
            }
        }
    }
}
