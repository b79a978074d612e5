//! Time-dependent networks: profiles, live reports, earliest arrival search.
use crate::util::*;
use rand::prelude::*;
use rust_road_router::algo::{customizable_contraction_hierarchy::CCH, dijkstra::query::dijkstra as dij, dijkstra::query::td_dijkstra::*, *};
use rust_road_router::datastr::graph::{time_dependent::*, Graph};
use rust_road_router::util::in_range_option::InRangeOption;
use serde_json::{json, Value};

pub const P: u32 = 86_400_000;

/// a FIFO profile: departure/travel time points as stored in the raw data
pub fn profile(r: &mut R, scale: u32) -> Vec<(u32, u32)> {
    let k = match r.gen_range(0..5) {
        0 => 1,
        1 => r.gen_range(1..4),
        _ => r.gen_range(2..9),
    };
    if k == 1 {
        return vec![(if r.gen_bool(0.8) { 0 } else { r.gen_range(0..P) }, r.gen_range(if scale > 3 { 1 } else { 0 }..=scale))];
    }
    let mut d = std::collections::BTreeSet::new();
    if r.gen_bool(0.6) {
        d.insert(0);
    }
    let base = r.gen_range(0..P);
    while d.len() < k {
        match r.gen_range(0..6) {
            0 => d.insert((base + r.gen_range(0..20)) % P),
            1 => d.insert(P - 1 - r.gen_range(0..3)),
            2 => d.insert(r.gen_range(0..24) * 3_600_000),
            3 => d.insert((base + r.gen_range(0..3 * scale.max(1)).min(P / 2)) % P),
            _ => d.insert(r.gen_range(0..P)),
        };
    }
    let d: Vec<u32> = d.into_iter().collect();
    let t0 = r.gen_range(0..=scale);
    let mut at = 0;
    let mut v = vec![];
    for (i, &x) in d.iter().enumerate() {
        let t = if i == 0 { t0 } else if r.gen_bool(0.15) { 0 } else { r.gen_range(0..=scale) };
        at = (x + t).max(at).min(P + t0).max(x);
        v.push((x, at - x));
    }
    if r.gen_bool(0.3) {
        v.push((P, v[0].1));
    }
    v
}

#[derive(Clone)]
pub struct TD {
    pub g: G,
    pub ttf: Vec<Vec<(u32, u32)>>,
    pub fnk: u32,
    pub soon: u32,
    pub live: Vec<Option<(u32, u32)>>,
}

pub fn stored(p: &[(u32, u32)]) -> Vec<(u32, u32)> {
    if p.len() == 1 {
        return vec![(0, p[0].1)];
    }
    let mut v = vec![];
    if p[0].0 != 0 {
        v.push((0, p[0].1));
    }
    v.extend_from_slice(p);
    if v.last().unwrap().0 != P {
        v.push((P, p[0].1));
    }
    v
}

/// own evaluation (only a witness: the specification checks each value)
pub fn value(p: &[(u32, u32)], t: u32) -> u32 {
    let s = stored(p);
    let x = t % P;
    if s.len() == 1 {
        return s[0].1;
    }
    let i = s.iter().rposition(|q| q.0 <= x).unwrap();
    let (a, b) = (s[i], s[i + 1]);
    let (y0, y1) = ((a.0 + a.1) as i128, (b.0 + b.1) as i128);
    (y0 + (x - a.0) as i128 * (y1 - y0) / (b.0 - a.0) as i128 - x as i128) as u32
}

impl TD {
    pub fn rand(r: &mut R, g: &G, fnk: u32) -> TD {
        let scale = *[3u32, 100, 60_000, 600_000, 5_000_000, 20_000_000].choose(r).unwrap();
        let ttf: Vec<_> = (0..g.m()).map(|_| profile(r, scale)).collect();
        TD::with(r, g, fnk, ttf, scale)
    }
    pub fn with(r: &mut R, g: &G, fnk: u32, ttf: Vec<Vec<(u32, u32)>>, scale: u32) -> TD {
        let soon = if r.gen_bool(0.5) { r.gen_range(0..P) } else { r.gen_range(0..4) * P / 3 };
        let share = *[0.1, 0.5, 0.9].choose(r).unwrap();
        let live = (0..g.m())
            .map(|e| {
                if fnk > 0 && r.gen_bool(share) {
                    let until = if fnk == 1 { soon } else { r.gen_range(0..P) };
                    let v = match r.gen_range(0..4) {
                        0 => value(&ttf[e], until),
                        1 => value(&ttf[e], until) + r.gen_range(0..=scale),
                        2 => value(&ttf[e], until) / 2,
                        _ => r.gen_range(0..=2 * scale),
                    };
                    // a blocked road
                    let v = if fnk == 2 && r.gen_bool(0.1) { INF } else { v };
                    Some((v, until))
                } else {
                    None
                }
            })
            .collect();
        TD { g: g.clone(), ttf, fnk, soon, live }
    }
    /// first point of each arc, departures, travel times
    pub fn arrays(&self) -> (Vec<u32>, Vec<u32>, Vec<u32>) {
        let mut f = vec![0];
        let (mut d, mut t) = (vec![], vec![]);
        for p in &self.ttf {
            for q in p {
                d.push(q.0);
                t.push(q.1);
            }
            f.push(d.len() as u32);
        }
        (f, d, t)
    }
    pub fn graph(&self) -> TDGraph {
        let (f, d, t) = self.arrays();
        TDGraph::new(self.g.fo.clone(), self.g.head.clone(), f, d, t)
    }
    pub fn live_graph(&self) -> LiveTDGraph {
        LiveTDGraph::new(self.graph(), self.soon, self.live.iter().map(|l| InRangeOption::new(l.map(|x| x.0))).collect())
    }
    pub fn pess_graph(&self) -> PessimisticLiveTDGraph {
        PessimisticLiveTDGraph::new(self.graph(), self.live.iter().map(|&l| InRangeOption::new(l)).collect())
    }
    /// (value, prediction, prediction when the report ends)
    pub fn val(&self, e: usize, t: u32) -> (u32, u32, u32) {
        let p = value(&self.ttf[e], t);
        match (self.fnk, self.live[e]) {
            (0, _) | (_, None) => (p, p, 0),
            (k, Some((l, until))) => {
                let ps = value(&self.ttf[e], until);
                let v = if k == 1 {
                    if t < until {
                        l
                    } else if ps < l {
                        (l + until).saturating_sub(t).max(p)
                    } else {
                        (l + (t - until)).min(p)
                    }
                } else if t >= until {
                    p
                } else {
                    p.max(l.min(ps + (until - t)))
                };
                (v, p, ps)
            }
        }
    }
    pub fn head(&self, e: &mut Ep) {
        e.graph(&self.g);
        e.set("ttf", json!(self.ttf));
        e.set("soon", json!(self.soon));
        e.set("live", json!(self.live.iter().map(|l| l.map(|(a, b)| json!([jw(a), b])).unwrap_or(json!([-1]))).collect::<Vec<_>>()));
    }
    pub fn load(&self, e: &mut Ep) {
        e.ev(json!({"op": "load", "fn": self.fnk}));
    }
    /// earliest arrivals with witnesses
    pub fn cert(&self, s: u32, dep: u32) -> (Vec<u32>, Value) {
        let n = self.g.n;
        let mut arr = vec![INF; n];
        let mut p = vec![0usize; n];
        let mut o = vec![0u32; n];
        let mut done = vec![false; n];
        let mut c = vec![(0u32, 0u32, 0u32); self.g.m()];
        arr[s as usize] = dep;
        let mut k = 0;
        while let Some(v) = (0..n).filter(|&v| !done[v] && arr[v] < INF).min_by_key(|&v| arr[v]) {
            done[v] = true;
            k += 1;
            o[v] = k;
            for e in self.g.fo[v] as usize..self.g.fo[v + 1] as usize {
                c[e] = self.val(e, arr[v]);
                let h = self.g.head[e] as usize;
                let a = arr[v].saturating_add(c[e].0).min(INF);
                if a < arr[h] {
                    arr[h] = a;
                    p[h] = e + 1;
                }
            }
        }
        for v in 0..n {
            if !done[v] {
                o[v] = n as u32 + 1;
            }
        }
        let j = json!({"s": s, "dep": dep, "arr": arr.iter().map(|&x| jw(x)).collect::<Vec<_>>(), "p": p, "o": o,
            "c": c.iter().map(|x| [jw(x.0), jw(x.1), jw(x.2)]).collect::<Vec<_>>()});
        (arr, j)
    }
    /// arcs and valuations for a node path (cheapest arc each time)
    pub fn follow(&self, path: &[u32], dep: u32) -> (Vec<usize>, Vec<[i64; 3]>) {
        let (mut arcs, mut pc, mut t) = (vec![], vec![], dep);
        for w in path.windows(2) {
            if w[0] as usize >= self.g.n {
                break;
            }
            let es = self.g.fo[w[0] as usize] as usize..self.g.fo[w[0] as usize + 1] as usize;
            if let Some((v, e)) = es.filter(|&e| self.g.head[e] == w[1]).map(|e| (self.val(e, t), e)).min_by_key(|x| x.0 .0) {
                arcs.push(e + 1);
                pc.push([jw(v.0), jw(v.1), jw(v.2)]);
                t = t.saturating_add(v.0).min(INF);
            }
        }
        (arcs, pc)
    }
    pub fn times(&self, r: &mut R) -> u32 {
        if self.g.m() > 0 && r.gen_bool(0.5) {
            let e = r.gen_range(0..self.g.m());
            let s = stored(&self.ttf[e]);
            let base = match self.live[e] {
                Some((_, u)) if r.gen_bool(0.5) => u,
                _ => s.choose(r).unwrap().0,
            };
            (base + r.gen_range(0..4)).saturating_sub(2)
        } else if r.gen_bool(0.7) {
            r.gen_range(0..P)
        } else {
            r.gen_range(0..3 * P)
        }
    }
}

#[macro_export]
macro_rules! tdq {
    ($e:expr, $alg:expr, $td:expr, $srv:expr, $s:expr, $t:expr, $dep:expr, $abs:expr) => {{
        if let Some((d, p)) = $e.guard($alg, || {
            let mut q = $srv.td_query(TDQuery { from: $s, to: $t, departure: $dep });
            let d = q.distance();
            let p = q.node_path();
            (d, p.unwrap_or_default())
        }) {
            let (_, row) = $td.cert($s, $dep);
            let (arcs, pc) = $td.follow(&p, $dep);
            $e.ev(json!({"op": "tq", "alg": $alg, "t": $t, "abs": $abs, "d": jo(d), "path": p, "arcs": arcs, "pc": pc, "row": row}));
        }
    }};
}

fn graph(r: &mut R, ep: u64) -> G {
    let mut o = Opt::rand(r);
    o.maxw = 5;
    match ep % 6 {
        0 => gen_graph(r, 1, 3, &o),
        1 | 2 | 3 => gen_graph(r, 2, 8, &o),
        _ => gen_graph(r, 8, 22, &o),
    }
}

/// profiles: evaluation and bounds (C17)
pub fn run_eval(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    let mut g = gen_graph(r, 2, 4, &Opt { zero: true, parallel: true, loops: true, inf: false, maxw: 5 });
    while g.m() == 0 {
        g = gen_graph(r, 2, 4, &Opt { zero: true, parallel: true, loops: true, inf: false, maxw: 5 });
    }
    let fnk = (ep % 3) as u32;
    let td = TD::rand(r, &g, fnk);
    td.head(e);
    td.load(e);
    let gr = td.graph();
    let lg = td.live_graph();
    let pg = td.pess_graph();
    let jv = |x: (u32, u32, u32)| [jw(x.0), jw(x.1), jw(x.2)];
    for a in 0..g.m().min(8) {
        let mut ts = vec![];
        for q in stored(&td.ttf[a]) {
            for k in [-1i64, 0, 1] {
                for day in 0..if r.gen_bool(0.3) { 3 } else { 1 } {
                    let t = q.0 as i64 + k + day * P as i64;
                    if t >= 0 {
                        ts.push(t as u32);
                    }
                }
            }
        }
        if let Some((l, u)) = td.live[a] {
            for t in [u.saturating_sub(1), u, u + 1, u.saturating_add(l.min(P)), u.saturating_sub(l.min(P))] {
                ts.push(t);
            }
        }
        for _ in 0..if thorough { 20 } else { 6 } {
            ts.push(td.times(r));
        }
        ts.sort();
        ts.dedup();
        if let Some(c) = e.guard("eval", || {
            ts.iter()
                .map(|&t| {
                    let v = match fnk {
                        0 => gr.travel_time_function(a as u32).eval(t),
                        1 => lg.eval(a as u32, t),
                        _ => pg.eval(a as u32, t),
                    };
                    let w = td.val(a, t);
                    [t as i64, jw(v), jw(w.1), jw(w.2)]
                })
                .collect::<Vec<_>>()
        }) {
            e.ev(json!({"op": "evals", "e": a, "c": c}));
        }
        if let Some((lo, hi)) = e.guard("bounds", || (gr.travel_time_function(a as u32).lower_bound(), gr.travel_time_function(a as u32).upper_bound())) {
            e.ev(json!({"op": "bounds", "e": a, "lo": lo, "hi": hi}));
        }
        // intervals
        for _ in 0..4 {
            let (x, y) = if r.gen_bool(0.7) { (r.gen_range(0..P), r.gen_range(1..P)) } else { (td.times(r) % P, 1 + td.times(r) % (P - 1)) };
            let x = if r.gen_bool(0.1) { 0 } else { x };
            // up to a day, may pass midnight, may begin on a later day
            let x = if r.gen_bool(0.2) { x + P } else { x };
            let y = if r.gen_bool(0.2) { P - x % P } else if r.gen_bool(0.1) { P } else { y };
            let rg = x..x + y;
            if let Some((lo, hi)) = e.guard("range", || {
                let f = gr.travel_time_function(a as u32);
                (f.lower_bound_in_range(rg.clone()), f.upper_bound_in_range(rg.clone()))
            }) {
                let mut at: Vec<u32> = vec![rg.start, rg.end - 1, (rg.start + rg.end) / 2];
                for q in stored(&td.ttf[a]) {
                    for d in 0..4u32 {
                        let t = q.0 + d * P;
                        if rg.contains(&t) {
                            at.push(t);
                            if t > rg.start {
                                at.push(t - 1);
                            }
                        }
                    }
                }
                at.sort();
                at.dedup();
                let at: Vec<_> = at.into_iter().map(|t| [t, value(&td.ttf[a], t)]).collect();
                e.ev(json!({"op": "range", "e": a, "a": rg.start, "b": rg.end, "lo": jw(lo), "hi": jw(hi), "at": at}));
            }
        }
        // mean over a (wrapping) part of the day
        for _ in 0..3 {
            let (x, y) = (td.times(r) % P, td.times(r) % P);
            let (x, y) = match r.gen_range(0..6) {
                0 => (x, 0),
                1 => (0, y),
                2 => (x, x),
                3 => (x.max(y), x.min(y)),
                _ => (x, y),
            };
            let w = WrappingRange::new(x..y);
            if let Some(avg) = e.guard("average", || gr.travel_time_function(a as u32).average(w.clone())) {
                let end = if y <= x { y + P } else { y };
                let mut at = vec![x, end];
                for q in stored(&td.ttf[a]) {
                    for d in 0..2u32 {
                        at.extend(Some(q.0 + d * P).filter(|t| (x..end).contains(t)));
                    }
                }
                at.sort();
                at.dedup();
                let at: Vec<_> = at.into_iter().map(|t| [t, value(&td.ttf[a], t)]).collect();
                let probes: Vec<_> = ts.iter().map(|t| t % P).chain([x, y, (x + 1) % P, (y + P - 1) % P]).map(|t| json!([t, w.contains(t)])).collect();
                let mono = w.clone().monotonize();
                e.ev(json!({"op": "average", "e": a, "a": w.start(), "b": w.end(), "x": x, "y": y, "avg": avg, "at": at, "in": probes, "mono": [mono.start, mono.end]}));
            }
        }
        if fnk == 2 {
            if let Some((sw, ended, up)) = e.guard("switch", || (pg.live_starts_switching_at(a as u32), pg.live_ended_at(a as u32), pg.predicted_upper_bound(a as u32))) {
                e.ev(json!({"op": "switch", "e": a, "sw": jo(sw), "ended": ended, "up": up, "ps": td.live[a].map_or(0, |l| value(&td.ttf[a], l.1))}));
            }
            if let Some((_, u)) = td.live[a] {
                let now = if r.gen_bool(0.5) { td.times(r) % P } else { u.saturating_sub(r.gen_range(1..3_600_000)) };
                if now < u {
                    if let Some(x) = e.guard("is_live_slower", || pg.is_live_slower(a as u32, now)) {
                        let mut at = vec![now, u];
                        at.extend(stored(&td.ttf[a]).iter().map(|q| q.0).filter(|t| (now..u).contains(t)));
                        at.sort();
                        at.dedup();
                        let at: Vec<_> = at.into_iter().map(|t| [t, value(&td.ttf[a], t)]).collect();
                        e.ev(json!({"op": "slower", "e": a, "now": now, "at": at, "x": x.map_or(-1, |b| b as i64)}));
                    }
                }
            }
            // bounds of the pessimistic live profile
            let now = td.times(r) % P;
            if let Some(hi) = e.guard("upper_bound", || pg.upper_bound(a as u32, now)) {
                let c: Vec<_> = ts.iter().filter(|&&t| t >= now).map(|&t| (t, td.val(a, t))).map(|(t, v)| [t as i64, jw(v.0), jw(v.1), jw(v.2)]).collect();
                e.ev(json!({"op": "lbounds", "kind": "upper", "e": a, "lo": 0, "hi": jw(hi), "c": c}));
            }
            // the least travel time of departures within an interval
            let until = *[now + 1, now + 2, now + 3_540_000, now + r.gen_range(1..7_200_000), td.live[a].map_or(now + 9, |l| l.1), td.live[a].map_or(now + 7, |l| l.1 + 1)].choose(r).unwrap();
            if until > now {
                if let Some(lo) = e.guard("live_lower_bound", || pg.live_lower_bound(a as u32, now, until)) {
                    let mut at: Vec<u32> = ts.iter().copied().chain([now, until - 1, (now + until) / 2]).chain(td.live[a].map(|l| l.1)).chain(td.live[a].map(|l| l.1.saturating_sub(1)))
                        .filter(|t| (now..until).contains(t)).collect();
                    at.sort();
                    at.dedup();
                    let c: Vec<_> = at.into_iter().map(|t| (t, td.val(a, t))).map(|(t, v)| [t as i64, jw(v.0), jw(v.1), jw(v.2)]).collect();
                    e.ev(json!({"op": "lbounds", "kind": "lower", "e": a, "lo": jw(lo), "hi": 2147483647, "c": c}));
                }
            }
        }
    }
    let _ = jv;
    // the graph around the profiles
    if let Some((ipps, cons, links)) = e.guard("graph", || {
        let links: Vec<Vec<[u32; 2]>> = (0..g.n as u32).map(|v| gr.neighbor_and_edge_id_iter(v).map(|(h, a)| [h, a]).collect()).collect();
        for v in 0..g.n as u32 {
            assert_eq!(Graph::degree(&gr, v), links[v as usize].len());
            assert_eq!(Graph::degree(&lg, v), links[v as usize].len());
            assert_eq!(Graph::degree(&pg, v), links[v as usize].len());
        }
        (gr.num_ipps(), gr.num_constant(), links)
    }) {
        e.ev(json!({"op": "shape", "ipps": ipps, "cons": cons, "links": links}));
    }
    // changing all profiles at once
    let at: Vec<(usize, u32)> = (0..16).map(|_| (r.gen_range(0..g.m()), td.times(r))).collect();
    for kind in ["zero", "lower", "fast"] {
        if kind == "fast" && fnk != 2 {
            continue;
        }
        if let Some(v) = e.guard(kind, || {
            if fnk == 2 {
                let mut x = pg.clone();
                match kind {
                    "zero" => x.fix_zero_travel_times(),
                    "lower" => x.to_constant_lower(),
                    _ => {
                        x.remove_live_faster_than_global_lower();
                        x.check_global_lower();
                    }
                }
                at.iter().map(|&(a, t)| x.eval(a as u32, t)).collect::<Vec<_>>()
            } else {
                let mut x = gr.clone();
                if kind == "zero" {
                    x.fix_zero_travel_times()
                } else {
                    x.to_constant_lower()
                }
                at.iter().map(|&(a, t)| x.travel_time_function(a as u32).eval(t)).collect()
            }
        }) {
            let mut td = TD { g: td.g.clone(), ttf: td.ttf.clone(), fnk: if fnk == 2 { 2 } else { 0 }, soon: td.soon, live: td.live.clone() };
            for a in 0..g.m() {
                let low = td.ttf[a].iter().map(|q| q.1).min().unwrap();
                match kind {
                    "zero" => td.ttf[a].iter_mut().for_each(|q| q.1 = q.1.max(1)),
                    "lower" => td.ttf[a] = vec![(0, low)],
                    _ => td.live[a] = td.live[a].filter(|l| l.0 >= low),
                }
            }
            let c: Vec<_> = at.iter().zip(v).map(|(&(a, t), v)| (a, t, v, td.val(a, t))).map(|(a, t, v, w)| [a as i64, t as i64, jw(v), jw(w.1), jw(w.2)]).collect();
            e.ev(json!({"op": "changed", "kind": kind, "c": c}));
        }
    }
}

/// earliest arrival queries (C18)
pub fn run_query(e: &mut Ep, r: &mut R, ep: u64, _thorough: bool) {
    let g = graph(r, ep);
    let fnk = ((ep / 6) % 3) as u32;
    let td = TD::rand(r, &g, fnk);
    td.head(e);
    td.load(e);
    let pairs = pick_pairs(r, g.n, 10);
    macro_rules! all {
        ($srv:expr) => {
            if let Some(mut srv) = e.guard("new", || $srv) {
                for &(s, t) in pairs.iter().take(12) {
                    let dep = td.times(r);
                    tdq!(e, "td-dijkstra", td, srv, s, t, dep, true);
                }
            }
        };
    }
    match fnk {
        0 => {
            all!(dij::Server::<TDGraph, TDDijkstraOps>::new(td.graph()));
            // the sampling heuristic: journeys that exist
            if g.m() > 0 {
                let order = crate::fam_cch::order_for(r, &g, false);
                if let Some(cch) = e.guard("cch", || CCH::fix_order_and_build(&td.graph(), order)) {
                    if let Some(mut srv) = e.guard("tds.new", || time_dependent_sampling::Server::new(td.graph(), &cch)) {
                        for &(s, t) in pairs.iter().take(6) {
                            let dep = td.times(r);
                            if let Some((d, p)) = e.guard("tds", || {
                                let mut q = srv.td_query(TDQuery { from: s, to: t, departure: dep });
                                (q.distance(), q.node_path().unwrap_or_default())
                            }) {
                                let (_, row) = td.cert(s, dep);
                                let (arcs, pc) = td.follow(&p, dep);
                                e.ev(json!({"op": "hq", "alg": "tds", "t": t, "d": jo(d), "path": p, "arcs": arcs, "pc": pc, "row": row}));
                            }
                        }
                    }
                }
            }
        }
        1 => all!(dij::Server::<LiveTDGraph, LiveTDDijkstraOps>::new(td.live_graph())),
        _ => all!(dij::Server::<PessimisticLiveTDGraph, PessimisticLiveTDDijkstraOps>::new(td.pess_graph())),
    }
}
