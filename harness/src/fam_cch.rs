//! Customizable contraction hierarchies: construction, customization, queries.
use crate::fam_pot::two_metrics;
use crate::util::*;
use rand::prelude::*;
use rust_road_router::algo::{customizable_contraction_hierarchy::*, *};
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use serde_json::{json, Value};

pub fn pool(k: usize) -> &'static rayon::ThreadPool {
    use std::sync::Mutex;
    static P: Mutex<Vec<(usize, &'static rayon::ThreadPool)>> = Mutex::new(vec![]);
    let mut p = P.lock().unwrap();
    if let Some(x) = p.iter().find(|x| x.0 == k) {
        return x.1;
    }
    let np: &'static rayon::ThreadPool = Box::leak(Box::new(rayon::ThreadPoolBuilder::new().num_threads(k).build().unwrap()));
    p.push((k, np));
    np
}

pub const THREADS: [usize; 5] = [1, 2, 3, 4, 8];

pub fn cch_graph(r: &mut R, ep: u64, inf: bool) -> (G, bool) {
    let mut o = Opt::rand(r);
    o.inf = inf && r.gen_bool(0.4);
    if ep % 9 == 8 {
        // large enough for cells to be processed sequentially inside one task
        let g = gen_graph(r, 50, 110, &o);
        // drop dense ones
        if g.m() <= 420 {
            return (g, true);
        }
    }
    if r.gen_bool(0.15) {
        o.loops = true;
        o.parallel = true;
    }
    (gen_graph(r, 1, 13, &o), false)
}

/// nested dissection by BFS halves: sensible for the larger graphs
pub fn nd_order(g: &G) -> NodeOrder {
    let mut adj = vec![vec![]; g.n];
    for i in 0..g.m() {
        adj[g.tail[i] as usize].push(g.head[i]);
        adj[g.head[i] as usize].push(g.tail[i]);
    }
    fn rec(nodes: Vec<u32>, adj: &[Vec<u32>], out: &mut Vec<u32>) {
        // out is filled from the most important node down
        if nodes.len() <= 3 {
            out.extend(nodes);
            return;
        }
        let set: std::collections::HashSet<u32> = nodes.iter().copied().collect();
        let mut seen = std::collections::HashSet::new();
        let mut q = std::collections::VecDeque::new();
        let mut ord = vec![];
        q.push_back(nodes[0]);
        seen.insert(nodes[0]);
        while let Some(u) = q.pop_front() {
            ord.push(u);
            for &v in &adj[u as usize] {
                if set.contains(&v) && seen.insert(v) {
                    q.push_back(v);
                }
            }
        }
        if ord.len() < nodes.len() {
            let rest: Vec<u32> = nodes.iter().copied().filter(|v| !seen.contains(v)).collect();
            rec(ord, adj, out);
            rec(rest, adj, out);
            return;
        }
        let half: std::collections::HashSet<u32> = ord[..ord.len() / 2].iter().copied().collect();
        let (mut a, mut s) = (vec![], vec![]);
        for &u in &ord[..ord.len() / 2] {
            if adj[u as usize].iter().any(|v| set.contains(v) && !half.contains(v)) {
                s.push(u);
            } else {
                a.push(u);
            }
        }
        let b = ord[ord.len() / 2..].to_vec();
        out.extend(s);
        if !a.is_empty() {
            rec(a, adj, out);
        }
        if !b.is_empty() {
            rec(b, adj, out);
        }
    }
    let mut out = vec![];
    rec((0..g.n as u32).collect(), &adj, &mut out);
    out.reverse();
    NodeOrder::from_node_order(out)
}

pub fn order_for(r: &mut R, g: &G, big: bool) -> NodeOrder {
    if big || r.gen_bool(0.3) {
        nd_order(g)
    } else {
        some_order(r, g)
    }
}

fn sep_json(t: &separator_decomposition::SeparatorTree, p: usize, out: &mut Vec<Value>) {
    let nodes: Vec<u32> = t.nodes.iter().collect();
    out.push(json!({"p": p, "nodes": nodes, "num": t.num_nodes}));
    let me = out.len();
    for c in &t.children {
        sep_json(c, me, out);
    }
}

fn inv_json(inv: &ReversedGraphWithEdgeIds, n: usize) -> Value {
    json!((0..n as u32)
        .map(|u| LinkIterable::<(NodeIdT, Reversed)>::link_iter(inv, u)
            .map(|(NodeIdT(v), Reversed(EdgeIdT(e)))| [v, e])
            .collect::<Vec<_>>())
        .collect::<Vec<_>>())
}

fn lists<C: CCHT>(c: &C, up: bool) -> Value {
    let v = if up { c.forward_cch_edge_to_orig_arc() } else { c.backward_cch_edge_to_orig_arc() };
    json!(v.iter().map(|s| s.iter().map(|e| e.0).collect::<Vec<_>>()).collect::<Vec<_>>())
}

fn et<C: CCHT>(c: &C) -> Value {
    json!(c.elimination_tree().iter().map(|p| p.value().map(|x| x as i64).unwrap_or(-1)).collect::<Vec<_>>())
}

pub fn build_json(kind: &str, given: &NodeOrder, cch: &CCH) -> Value {
    let n = cch.num_cch_nodes();
    let mut sep = vec![];
    sep_json(cch.separators(), 0, &mut sep);
    json!({"op": "build", "kind": kind, "given": given.order(), "order": cch.node_order().order(), "rank": cch.node_order().ranks(),
        "fo": cch.forward_first_out(), "head": cch.forward_head(), "tail": cch.forward_tail(), "et": et(cch),
        "fe": lists(cch, true), "be": lists(cch, false), "inv": inv_json(cch.forward_inverted(), n), "sep": sep})
}

pub fn run_build(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    let (g, big) = if thorough && ep < 4096 && ep % 3 == 0 {
        (tiny_graph(ep as usize), false)
    } else {
        cch_graph(r, ep, false)
    };
    let graph = g.owned();
    e.graph(&g);
    e.metrics(vec![]);
    let order = order_for(r, &g, big);
    if !big {
        if let Some(c) = e.guard("contract", || contract(&graph, order.clone())) {
            e.ev(build_json("contract", &order, &c));
            reorders(e, r, &g, &c);
        }
    }
    if let Some(c) = e.guard("fix_order_and_build", || {
        let c = CCH::fix_order_and_build(&graph, order.clone());
        c.separators().validate_for_parallelization();
        c
    }) {
        e.ev(build_json("fix", &order, &c));
        reorders(e, r, &g, &c);
        let k = *THREADS.choose(r).unwrap();
        let res = e.guard("prune", || pool(k).install(|| (c.to_directed_cch(), c.remove_always_infinity())));
        if let Some((d, u)) = res {
            e.ev(json!({"op": "pruned", "order": d.node_order().order(), "et": et(&d),
                "dfw": {"fo": d.forward_first_out(), "head": d.forward_head(), "tail": d.forward_tail(), "arcs": lists(&d, true), "inv": inv_json(d.forward_inverted(), g.n)},
                "dbw": {"fo": d.backward_first_out(), "head": d.backward_head(), "tail": d.backward_tail(), "arcs": lists(&d, false), "inv": inv_json(d.backward_inverted(), g.n)},
                "und": {"fo": u.forward_first_out(), "head": u.forward_head(), "tail": u.forward_tail(), "fe": lists(&u, true), "be": lists(&u, false), "inv": inv_json(u.forward_inverted(), g.n), "et": et(&u)}}));
        }
    }
}

fn reorders(e: &mut Ep, r: &mut R, g: &G, c: &CCH) {
    if let Some(o) = e.guard("reorder_bfs", || reorder_bfs(c)) {
        e.ev(json!({"op": "reorder", "kind": "bfs", "order": o.order()}));
    }
    if let Some(o) = e.guard("reorder_sep", || reorder_for_seperator_based_customization(c.node_order(), c.separators().clone())) {
        e.ev(json!({"op": "reorder", "kind": "sep", "order": o.order()}));
    }
    let lat: Vec<f32> = (0..g.n).map(|_| r.gen_range(0..5) as f32).collect();
    let lng: Vec<f32> = (0..g.n).map(|_| r.gen_range(0..5) as f32 * 0.5).collect();
    if let Some(o) = e.guard("reorder_geo", || reorder(c, &lat, &lng)) {
        e.ev(json!({"op": "reorder", "kind": "geo", "order": o.order()}));
    }
}

pub fn arrays<C: Customized>(c: &C) -> (Value, Value) {
    let f = c.forward_graph();
    let b = c.backward_graph();
    let one = |g: &first_out_graph::BorrowedGraph, tail: &[u32], up: bool| {
        let unp: Vec<Vec<u32>> = (0..g.num_arcs() as u32)
            .map(|i| {
                if g.weight()[i as usize] >= INF {
                    return vec![];
                }
                let t = if up { c.unpack_outgoing(EdgeIdT(i)) } else { c.unpack_incoming(EdgeIdT(i)) };
                t.map(|(a, b, m)| vec![a.0, b.0, m.0]).unwrap_or_default()
            })
            .collect();
        json!({"fo": g.first_out(), "head": g.head(), "tail": tail, "w": g.weight().iter().map(|&w| jw(w)).collect::<Vec<_>>(), "unp": unp})
    };
    (one(&f, c.forward_tail(), true), one(&b, c.backward_tail(), false))
}

/// metrics: (G per metric)
fn some_metrics(r: &mut R, g: &G, k: usize) -> Vec<G> {
    let mut v = vec![g.clone()];
    for _ in 1..k {
        let mut o = Opt::rand(r);
        o.inf = r.gen_bool(0.4);
        v.push(match r.gen_range(0..3) {
            0 => two_metrics(r, g, true),
            _ => g.with_w((0..g.m()).map(|_| o.weight(r)).collect()),
        });
    }
    v
}

pub fn run_cust(e: &mut Ep, r: &mut R, ep: u64, _thorough: bool) {
    let (g, big) = cch_graph(r, ep, true);
    let graph = g.owned();
    e.graph(&g);
    let ms = some_metrics(r, &g, if big { 1 } else { 3 });
    e.metrics(ms.iter().map(|m| metric_json(m, &[])).collect());
    let order = order_for(r, &g, big);
    let Some(cch) = e.guard("fix_order_and_build", || CCH::fix_order_and_build(&graph, order.clone())) else { return };
    e.ev(build_json("fix", &order, &cch));
    let Some(dir) = e.guard("to_directed_cch", || cch.to_directed_cch()) else { return };
    let Some(und) = e.guard("remove_always_infinity", || cch.remove_always_infinity()) else { return };
    let reps: Vec<usize> = if big { vec![0] } else { vec![0, 1, 2, 0] };
    for mi in reps {
        e.ev(json!({"op": "metric", "k": mi + 1}));
        let mg = ms[mi].owned();
        let ks: Vec<usize> = THREADS.choose_multiple(r, 2).copied().collect();
        for &k in &ks {
            if let Some(c) = e.guard("customize", || pool(k).install(|| customize(&cch, &mg))) {
                let (f, b) = arrays(&c);
                e.ev(json!({"op": "cust", "kind": "basic", "threads": k, "fw": f, "bw": b}));
            }
        }
        let k = ks[0];
        if let Some(c) = e.guard("customize_directed", || pool(k).install(|| customize_directed(&dir, &mg))) {
            let (f, b) = arrays(&c);
            e.ev(json!({"op": "cust", "kind": "directed", "threads": k, "fw": f, "bw": b}));
        }
        if let Some(c) = e.guard("customize-pruned", || pool(k).install(|| customize(&und, &mg))) {
            let (f, b) = arrays(&c);
            e.ev(json!({"op": "cust", "kind": "pruned", "threads": k, "fw": f, "bw": b}));
        }
    }
}

pub fn run_perfect(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    let (g, big) = if thorough && ep % 5 == 0 {
        (tiny_graph(r.gen_range(0..4096)), false)
    } else if ep % 11 == 3 {
        // edgeless or almost edgeless
        let n = r.gen_range(1..9);
        let m = r.gen_range(0..3);
        (G::from_edges(n, (0..m).map(|_| (r.gen_range(0..n as u32), r.gen_range(0..n as u32), r.gen_range(0..4))).collect()), false)
    } else {
        cch_graph(r, ep, true)
    };
    let graph = g.owned();
    e.graph(&g);
    let ms = some_metrics(r, &g, if big { 1 } else { 2 });
    e.metrics(ms.iter().map(|m| metric_json(m, &all_sources(m))).collect());
    let order = order_for(r, &g, big);
    let Some(cch) = e.guard("fix_order_and_build", || CCH::fix_order_and_build(&graph, order.clone())) else { return };
    e.ev(build_json("fix", &order, &cch));
    let Some(dir) = e.guard("to_directed_cch", || cch.to_directed_cch()) else { return };
    let Some(und) = e.guard("remove_always_infinity", || cch.remove_always_infinity()) else { return };
    for mi in 0..ms.len() {
        e.ev(json!({"op": "metric", "k": mi + 1}));
        let mg = ms[mi].owned();
        let k = *THREADS.choose(r).unwrap();
        let isfull = r.gen_bool(0.75);
        let full = if isfull { &cch } else { &und };
        let pairs = pick_pairs(r, g.n, 3);
        if let Some(c) = e.guard("customize_perfect", || pool(k).install(|| customize_perfect(customize(full, &mg)))) {
            let (f, b) = arrays(&c);
            e.ev(json!({"op": "perfect", "threads": k, "kind": "und", "full": isfull, "pairs": pairs, "fw": f, "bw": b}));
        }
        if let Some(c) = e.guard("customize_directed_perfect", || pool(k).install(|| customize_directed_perfect(customize_directed(&dir, &mg)))) {
            let (f, b) = arrays(&c);
            e.ev(json!({"op": "perfect", "threads": k, "kind": "dir", "full": false, "pairs": pairs, "fw": f, "bw": b}));
        }
        if big && r.gen_bool(0.5) {
            continue;
        }
        if let Some(c) = e.guard("customize_perfect_without_rebuild", || {
            pool(k).install(|| {
                let mut c = customize(&cch, &mg);
                customization::customize_perfect_without_rebuild(&mut c);
                c
            })
        }) {
            let (f, b) = arrays(&c);
            e.ev(json!({"op": "inplace", "threads": k, "directed": false, "fw": f, "bw": b}));
        }
        // validity annotated
        let res = e.guard("customize_perfect_with_validity", || {
            pool(k).install(|| {
                let (mut up, mut down) = customize(&cch, &mg).into_weights();
                let (up0, down0) = (up.clone(), down.clone());
                let m = up.len();
                let mut rr = StdRng::seed_from_u64(ep);
                let mut fv: Vec<u32> = (0..m).map(|_| rr.gen_range(0..6)).collect();
                let mut bv: Vec<u32> = (0..m).map(|_| rr.gen_range(0..6)).collect();
                let (fv0, bv0) = (fv.clone(), bv.clone());
                customization::validity::customize_perfect_with_validity(&cch, &mut up, &mut down, &mut fv, &mut bv);
                let js = |v: &[u32]| v.iter().map(|&w| jw(w)).collect::<Vec<_>>();
                let one = |w: &[u32], w0: &[u32], v: &[u32], v0: &[u32]| json!({"fo": cch.forward_first_out(), "head": cch.forward_head(), "tail": cch.forward_tail(), "w": js(w), "w0": js(w0), "val": v, "val0": v0});
                (one(&up, &up0, &fv, &fv0), one(&down, &down0, &bv, &bv0))
            })
        });
        if let Some((f, b)) = res {
            e.ev(json!({"op": "validity", "threads": k, "fw": f, "bw": b}));
        }
    }
}

/// query servers with metric updates
pub fn run_query(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    use rust_road_router::algo::customizable_contraction_hierarchy::query::Server;
    let (g, big) = if thorough && ep < 4096 { (tiny_graph(ep as usize), false) } else { cch_graph(r, ep, true) };
    let graph = g.owned();
    e.graph(&g);
    let ms = some_metrics(r, &g, if big { 1 } else { 3 });
    let pairs: Vec<Vec<(u32, u32)>> = (0..6).map(|_| pick_pairs(r, g.n, 9)).collect();
    let mut src: Vec<u32> = pairs.iter().flatten().map(|p| p.0).collect();
    src.sort();
    src.dedup();
    e.metrics(ms.iter().map(|m| metric_json(m, &src)).collect());
    let order = order_for(r, &g, big);
    let Some(cch) = e.guard("fix_order_and_build", || CCH::fix_order_and_build(&graph, order.clone())) else { return };
    let Some(dir) = e.guard("to_directed_cch", || cch.to_directed_cch()) else { return };
    let Some(und) = e.guard("remove_always_infinity", || cch.remove_always_infinity()) else { return };
    let base = if r.gen_bool(0.8) { &cch } else { &und };
    let mut s1 = None;
    let mut s2 = None;
    let mut s3 = None;
    let mut s4 = None;
    for round in 0..6 {
        let mi = if round == 0 { 0 } else { r.gen_range(0..ms.len()) };
        let mg = ms[mi].owned();
        e.ev(json!({"op": "metric", "k": mi + 1}));
        macro_rules! inst {
            ($s:ident, $at:expr, $c:expr) => {
                if let Some(c) = e.guard($at, || $c) {
                    match &mut $s {
                        None => $s = Some(Server::new(c)),
                        Some(s) => s.update(c),
                    }
                }
            };
        }
        let k = *THREADS.choose(r).unwrap();
        inst!(s1, "customize", pool(k).install(|| customize(base, &mg)));
        inst!(s2, "customize_perfect", pool(k).install(|| customize_perfect(customize(base, &mg))));
        inst!(s3, "customize_directed", pool(k).install(|| customize_directed(&dir, &mg)));
        inst!(s4, "customize_directed_perfect", pool(k).install(|| customize_directed_perfect(customize_directed(&dir, &mg))));
        for &(s, t) in &pairs[round] {
            if e.dead {
                return;
            }
            if r.gen_bool(0.2) {
                query_d!(e, "cch", s1.as_mut().unwrap(), s, t);
                query_d!(e, "cch-perfect", s2.as_mut().unwrap(), s, t);
            } else {
                query!(e, "cch", s1.as_mut().unwrap(), s, t);
                query!(e, "cch-perfect", s2.as_mut().unwrap(), s, t);
                query!(e, "cch-dir", s3.as_mut().unwrap(), s, t);
                query!(e, "cch-dir-perfect", s4.as_mut().unwrap(), s, t);
            }
        }
        if big {
            break;
        }
    }
}
