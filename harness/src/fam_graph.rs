//! Representation changes and turn expansion.
use crate::fam_td::TD;
use crate::util::*;
use rand::prelude::*;
use rust_road_router::algo::{a_star::*, ch_potentials::*, customizable_contraction_hierarchy::*, dijkstra::query::dijkstra as dij, dijkstra::*, *};
use rust_road_router::datastr::graph::{first_out_graph::*, time_dependent::*, *};
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::util::in_range_option::InRangeOption;
use serde_json::{json, Value};

fn arcs<G: LinkIterable<Link>>(g: &G) -> Vec<Value> {
    (0..g.num_nodes() as u32).flat_map(|u| LinkIterable::<Link>::link_iter(g, u).map(move |l| json!([u, l.node, jw(l.weight)])).collect::<Vec<_>>()).collect()
}
fn arcs_n<G: LinkIterable<NodeIdT>>(g: &G) -> Vec<Value> {
    (0..g.num_nodes() as u32).flat_map(|u| LinkIterable::<NodeIdT>::link_iter(g, u).map(move |l| json!([u, l.0, 1])).collect::<Vec<_>>()).collect()
}

fn access<G: LinkIterable<Link> + EdgeIdGraph + EdgeRandomAccessGraph<Link> + LinkIterable<(NodeIdT, EdgeIdT)>>(e: &mut Ep, r: &mut R, g: &G) {
    let n = g.num_nodes();
    let pairs = pick_pairs(r, n, 40);
    if let Some(v) = e.guard("access", || {
        json!({"op": "access", "n": n, "m": g.num_arcs(),
            "deg": (0..n as u32).map(|v| g.degree(v)).collect::<Vec<_>>(),
            "rng": (0..n as u32).map(|v| { let x = g.neighbor_edge_indices_usize(v); [x.start, x.end] }).collect::<Vec<_>>(),
            "iter": arcs(g),
            "links": (0..g.num_arcs() as u32).map(|a| { let l: Link = g.link(a); [l.node as i64, jw(l.weight)] }).collect::<Vec<_>>(),
            "ids": (0..n as u32).flat_map(|u| LinkIterable::<(NodeIdT, EdgeIdT)>::link_iter(g, u).map(move |(h, i)| [u, h.0, i.0]).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "find": pairs.iter().map(|&(u, v)| json!([u, v, g.edge_indices(u, v).map(|x| x.0).collect::<Vec<_>>()])).collect::<Vec<_>>()})
    }) {
        e.ev(v);
    }
}

pub fn run_repr(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    let mut o = Opt::rand(r);
    o.inf = r.gen_bool(0.4);
    let g = crate::fam_sp::pick_graph(r, if ep % 24 == 15 { ep + 1 } else { ep }, thorough, &o);
    let n = g.n;
    e.graph(&g);
    e.set("w", json!(g.w));
    let og = g.owned();
    access(e, r, &og);
    access(e, r, &og.borrowed());
    let ev = |e: &mut Ep, op: &str, f: &mut dyn FnMut() -> Vec<Value>| {
        if let Some(a) = e.guard(op, || f()) {
            e.ev(json!({"op": op, "arcs": a}));
        }
    };
    ev(e, "rev", &mut || arcs(&OwnedGraph::reversed(&og)));
    ev(e, "rev", &mut || {
        let x = OwnedGraph::reversed(&OwnedGraph::reversed(&OwnedGraph::reversed(&og.borrowed())));
        arcs(&x)
    });
    ev(e, "revid", &mut || {
        let x = ReversedGraphWithEdgeIds::reversed(&og);
        assert_eq!(x.num_arcs(), og.num_arcs());
        (0..n as u32).flat_map(|u| { assert_eq!(x.degree(u), x.link_iter(u).count()); x.link_iter(u).map(move |(t, Reversed(i))| json!([u, t.0, i.0])).collect::<Vec<_>>() }).collect()
    });
    ev(e, "adj", &mut || {
        let l: Vec<Vec<Link>> = (0..n as u32).map(|u| LinkIterable::<Link>::link_iter(&og, u).collect()).collect();
        let x = OwnedGraph::from_adjancecy_lists(l);
        assert_eq!(x.first_out().len(), n + 1);
        arcs(&x)
    });
    ev(e, "noinf", &mut || arcs(&InfinityFilteringGraph(og.clone())));
    ev(e, "norev", &mut || arcs(&OwnedGraph::reversed(&InfinityFilteringGraph(og.clone()))));
    ev(e, "unify", &mut || {
        let mut x = og.clone();
        unify_parallel_edges(&mut x);
        arcs(&x)
    });
    // orders
    let mut last = NodeOrder::identity(n);
    for kind in ["order", "ranks", "identity"] {
        let mut p: Vec<u32> = (0..n as u32).collect();
        p.shuffle(r);
        if let Some(ord) = e.guard("order", || match kind {
            "order" => NodeOrder::from_node_order(p.clone()),
            "ranks" => NodeOrder::from_ranks(p.clone()),
            _ => NodeOrder::identity(n),
        }) {
            if let Some(v) = e.guard("order", || {
                json!({"op": "order", "kind": kind, "input": p, "len": ord.len(), "order": ord.order(), "ranks": ord.ranks(),
                "node": (0..n as u32).map(|i| ord.node(i)).collect::<Vec<_>>(), "rank": (0..n as u32).map(|i| ord.rank(i)).collect::<Vec<_>>()})
            }) {
                e.ev(v);
            }
            if kind != "identity" {
                last = ord;
            }
        }
    }
    let rank: Vec<u32> = last.ranks().to_vec();
    if let Some(a) = e.guard("perm", || arcs(&<OwnedGraph as BuildPermutated<OwnedGraph>>::permutated(&og, &last))) {
        e.ev(json!({"op": "perm", "rank": rank, "arcs": a}));
    }
    for k in 0..3 {
        let salt: u32 = r.gen();
        let keep = move |a: u32, b: u32| match k {
            0 => a < b,
            1 => a > b,
            _ => (a.wrapping_mul(31).wrapping_add(b.wrapping_mul(17)).wrapping_add(salt)) % 3 != 0,
        };
        let kp: Vec<(u32, u32)> = g.tail.iter().zip(&g.head).map(|(&t, &h)| (rank[t as usize], rank[h as usize])).filter(|x| keep(x.0, x.1)).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        if let Some(a) = e.guard("permf", || arcs(&<OwnedGraph as BuildPermutated<OwnedGraph>>::permutated_filtered(&og, &last, Box::new(keep)))) {
            e.ev(json!({"op": "permf", "rank": rank, "keep": kp, "arcs": a}));
        }
    }
    if let Some((u, d)) = e.guard("split", || {
        let (u, d) = og.ch_split(&last);
        (arcs(&u), arcs(&d))
    }) {
        e.ev(json!({"op": "split", "rank": rank, "up": u, "down": d}));
    }
    let deg: Vec<u32> = (0..r.gen_range(0..10)).map(|_| r.gen_range(0..4)).collect();
    if let Some(f) = e.guard("firstout", || degrees_to_first_out(deg.iter().copied()).collect::<Vec<u32>>()) {
        e.ev(json!({"op": "firstout", "deg": deg, "fo": f}));
    }
    // weights replaced in place
    // unweighted representations: same arcs, weight 1
    let ones = g.with_w(vec![1; g.m()]);
    let _ = ones;
    if g.w.iter().all(|&w| w == 1) {
        let ug = || UnweightedOwnedGraph::new(g.fo.clone(), g.head.clone());
        ev(e, "adj", &mut || arcs_n(&UnweightedOwnedGraph::from_adjancecy_lists((0..n as u32).map(|u| LinkIterable::<NodeIdT>::link_iter(&og, u).map(|x| x.0).collect()).collect())));
        ev(e, "rev", &mut || arcs_n(&UnweightedOwnedGraph::reversed(&ug())));
        ev(e, "rev", &mut || arcs_n(&UnweightedOwnedGraph::reversed(&og)));
    }
    // time-dependent networks: renumbered, arcs keep their profile (identified by a constant)
    if g.m() > 0 {
        let fnk = (ep % 3) as u32;
        let mut td = TD::rand(r, &g, fnk);
        for (a, f) in td.ttf.iter_mut().enumerate() {
            *f = vec![(0, 3 * a as u32)];
            td.live[a] = None;
        }
        let mut w: Vec<u32> = vec![];
        let mut res = vec![];
        let x = e.guard("perm", || match fnk {
            1 => {
                let p = <LiveTDGraph as BuildPermutated<LiveTDGraph>>::permutated(&td.live_graph(), &last);
                (p.graph().first_out().to_vec(), p.graph().head().to_vec(), (0..p.num_arcs() as u32).map(|a| p.eval(a, 7)).collect::<Vec<_>>())
            }
            _ => {
                let p = <TDGraph as BuildPermutated<TDGraph>>::permutated(&td.graph(), &last);
                (p.first_out().to_vec(), p.head().to_vec(), (0..p.num_arcs() as u32).map(|a| p.travel_time_function(a).eval(7)).collect::<Vec<_>>())
            }
        });
        if let Some((fo, head, ids)) = x {
            // arc id = value / 3: report the arc's weight of the input
            for u in 0..fo.len() - 1 {
                for a in fo[u] as usize..fo[u + 1] as usize {
                    let id = (ids[a] / 3) as usize;
                    w.push(id as u32);
                    let ok = ids[a] % 3 == 0 && id < g.m();
                    res.push(json!([u, head[a], if ok { jw(g.w[id]) } else { -5 }]));
                }
            }
            w.sort();
            w.dedup();
            if w.len() != g.m() {
                res.clear();
                res.push(json!([0, 0, -6]));
            }
            e.ev(json!({"op": "perm", "rank": rank, "arcs": res}));
        }
    }
}

pub fn run_turns(e: &mut Ep, r: &mut R, ep: u64, _thorough: bool) {
    let mut o = Opt::rand(r);
    o.maxw = o.maxw.min(1000);
    let (a, b) = match ep % 4 {
        0 => (1, 3),
        1 | 2 => (2, 7),
        _ => (6, 14),
    };
    let mut g = gen_graph(r, a, b, &o);
    if g.m() > 45 {
        g = gen_graph(r, 2, 5, &o);
    }
    let m = g.m();
    let forbid = *[0.0, 0.2, 0.6].choose(r).unwrap();
    let maxc = *[0u32, 3, 500].choose(r).unwrap();
    let mut tab = std::collections::BTreeMap::new();
    let mut turns = vec![];
    for x in 0..m {
        for y in g.fo[g.head[x] as usize]..g.fo[g.head[x] as usize + 1] {
            // mostly forbid u-turns
            let u = g.head[y as usize] == g.tail[x] && r.gen_bool(0.6);
            if !u && !r.gen_bool(forbid) {
                let c = r.gen_range(0..=maxc);
                tab.insert((x as u32, y), c);
                turns.push((x as u32, y, c));
            }
        }
    }
    let lg = G::from_edges(m.max(1), turns.iter().map(|&(x, y, c)| (x, y, g.w[x as usize] + c)).collect());
    let refs = |g: &G| (0..g.n as u32).map(|s| { let (d, p, o) = g.cert(s); json!({"s": s, "d": d, "p": p, "o": o}) }).collect::<Vec<_>>();
    e.graph(&g);
    e.set("w", json!(g.w));
    e.set("turns", json!(turns));
    e.set("ref", json!(refs(&g)));
    e.set("lg", json!({"n": m, "fo": lg.fo, "tail": lg.tail, "head": lg.head, "w": lg.w, "ref": if m > 0 { refs(&lg) } else { vec![] }}));
    let og = g.owned();
    let cost = |a: u32, b: u32| tab.get(&(a, b)).copied();
    let line = match e.guard("line_graph", || line_graph(&og, cost)) {
        Some(x) => x,
        None => return,
    };
    if let Some(v) = e.guard("line", || json!({"op": "line", "n": line.num_nodes(), "arcs": arcs(&line)})) {
        e.ev(v);
    }
    if m == 0 {
        return;
    }
    let pairs = pick_pairs(r, m, 14);
    macro_rules! lq {
        ($alg:expr, $srv:expr) => {
            if let Some(mut srv) = e.guard($alg, || $srv) {
                for &(s, t) in pairs.iter().take(16) {
                    if let Some((d, p)) = e.guard($alg, || {
                        let mut q = srv.query(Query { from: s, to: t });
                        (q.distance(), q.node_path().unwrap_or_default())
                    }) {
                        e.ev(json!({"op": "lq", "alg": $alg, "s": s, "t": t, "d": jo(d), "path": p}));
                    }
                }
            }
        };
    }
    lq!("turn-dijkstra", dij::Server::<OwnedGraph>::new(line.clone()));
    lq!("turn-astar", dij::Server::<OwnedGraph, DefaultOps, _>::with_potential(line.clone(), TurnExpandedPotential::new(&og, BaselinePotential::new(&og))));
    let cch = match e.guard("cch", || CCH::fix_order_and_build(&og, rand_order(r, g.n))) {
        Some(c) => c,
        None => return,
    };
    if let Some(data) = e.guard("potdata", || CCHPotData::new(&cch, &og)) {
        lq!("turn-astar-cch", dij::Server::<OwnedGraph, DefaultOps, _>::with_potential(line.clone(), TurnExpandedPotential::new(&og, data.forward_potential())));
        let mut ps: Vec<(bool, Box<dyn FnMut(u32, &[u32]) -> Vec<Option<u32>>>)> = vec![];
        let mut a = TurnExpandedPotential::new(&og, BaselinePotential::new(&og));
        ps.push((true, Box::new(move |t, vs| { a.init(t); vs.iter().map(|&v| a.potential(v)).collect() })));
        let mut b = TurnExpandedPotential::new(&og, data.forward_potential());
        ps.push((true, Box::new(move |t, vs| { b.init(t); vs.iter().map(|&v| b.potential(v)).collect() })));
        let mut z = TurnExpandedPotential::new(&og, ZeroPotential());
        ps.push((false, Box::new(move |t, vs| { z.init(t); vs.iter().map(|&v| z.potential(v)).collect() })));
        for (exact, f) in ps.iter_mut() {
            for _ in 0..3 {
                let t = r.gen_range(0..m as u32);
                let vs: Vec<u32> = (0..8).map(|_| r.gen_range(0..m as u32)).collect();
                if let Some(p) = e.guard("pot", || f(t, &vs)) {
                    for (i, &v) in vs.iter().enumerate() {
                        e.ev(json!({"op": "lpot", "exact": *exact, "t": t, "v": v, "p": jo(p[i])}));
                    }
                }
            }
        }
    }
    // time-dependent expansion
    let fnk = (ep % 3) as u32;
    let td = TD::rand(r, &g, fnk);
    let ts: Vec<u32> = (0..5).map(|_| td.times(r)).collect();
    let x = e.guard("td.line_graph", || {
        let ev = |fo: &[u32], head: &[u32], f: &dyn Fn(u32, u32) -> u32, of: &dyn Fn(u32, u32) -> u32| {
            let mut a = vec![];
            let mut smp = vec![];
            for u in 0..fo.len() - 1 {
                for i in fo[u]..fo[u + 1] {
                    a.push(json!([u, head[i as usize]]));
                    smp.push(ts.iter().map(|&t| json!([t, of(u as u32, t), f(i, t)])).collect::<Vec<_>>());
                }
            }
            (a, smp)
        };
        match fnk {
            0 => {
                let o = td.graph();
                let l = o.line_graph(cost);
                ev(l.first_out(), l.head(), &|a, t| l.travel_time_function(a).eval(t), &|a, t| o.travel_time_function(a).eval(t))
            }
            1 => {
                // constant predictions keep the overlay a plain shift
                let mut td2 = td.clone();
                for (k, f) in td2.ttf.iter_mut().enumerate() {
                    if k % 2 == 0 {
                        f.truncate(1);
                    }
                    if k % 3 == 0 {
                        td2.live[k] = None;
                    }
                }
                let o = td2.live_graph();
                let l = o.line_graph(cost);
                ev(l.graph().first_out(), l.graph().head(), &|a, t| l.eval(a, t), &|a, t| o.eval(a, t))
            }
            _ => {
                let o = td.pess_graph();
                let l = o.line_graph(cost);
                let no_inf = |x: u32| x;
                ev(l.graph().first_out(), l.graph().head(), &|a, t| no_inf(l.eval(a, t)), &|a, t| o.eval(a, t))
            }
        }
    });
    if let Some((a, smp)) = x {
        e.ev(json!({"op": "ltd", "fn": fnk, "arcs": a, "smp": smp}));
    }
    let _ = InRangeOption::<u32>::NONE;
}
