//! The algebra of travel time profiles (floating point): registers hold expressions over whole-millisecond profiles with
//! integral slopes, so that the value of every expression at every whole millisecond is a whole number.
use crate::fam_td::P;
use crate::fam_tdpot::whole_profile;
use crate::util::*;
use rand::prelude::*;
use rust_road_router::datastr::graph::floating_time_dependent::*;
use serde_json::{json, Value};
use std::convert::TryInto;

#[derive(Clone, Debug)]
pub enum X {
    B(usize),
    L(Box<X>, Box<X>),
    M(Box<X>, Box<X>),
    U(Box<X>, i64, i64, i64),
}
use X::*;
impl X {
    pub fn js(&self) -> Value {
        match self {
            B(i) => json!(["b", i + 1]),
            L(a, b) => json!(["l", a.js(), b.js()]),
            M(a, b) => json!(["m", a.js(), b.js()]),
            U(a, t0, v0, t1) => json!(["u", a.js(), t0, v0, t1]),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            B(_) => 0,
            L(a, b) | M(a, b) => 1 + a.depth().max(b.depth()),
            U(a, ..) => 1 + a.depth(),
        }
    }
    pub fn val(&self, base: &[Vec<(i64, i64)>], t: i64) -> i64 {
        match self {
            B(i) => {
                let f = &base[*i];
                if f.len() == 1 {
                    return f[0].1;
                }
                let t = t.rem_euclid(P as i64);
                let k = f.iter().rposition(|p| p.0 <= t).unwrap().min(f.len() - 2);
                let (p, q) = (f[k], f[k + 1]);
                p.1 + (q.1 - p.1) * (t - p.0) / (q.0 - p.0)
            }
            L(a, b) => {
                let v = a.val(base, t);
                v + b.val(base, t + v)
            }
            M(a, b) => a.val(base, t).min(b.val(base, t)),
            U(a, t0, v0, t1) => {
                if t <= *t1 {
                    v0 + (a.val(base, *t1) - v0) * (t - t0) / (t1 - t0)
                } else {
                    a.val(base, t)
                }
            }
        }
    }
}

fn ts(ms: i64) -> Timestamp {
    Timestamp::new(ms as f64 / 1000.0)
}
fn ms_f(t: f64) -> i64 {
    (t * 1000.0 + 1e-2).floor() as i64
}
fn at(p: &TTFPoint) -> f64 {
    p.at.into()
}
fn vl(p: &TTFPoint) -> f64 {
    p.val.into()
}
/// plain interpolation of the points returned (constant if there is a single one)
fn interp(f: &[TTFPoint], t: f64) -> f64 {
    if f.len() == 1 {
        return vl(&f[0]);
    }
    let k = f.iter().rposition(|p| at(p) <= t).unwrap_or(0).min(f.len() - 2);
    let (p, q) = (&f[k], &f[k + 1]);
    vl(p) + (vl(q) - vl(p)) * (t - at(p)) / (at(q) - at(p))
}
fn obs(v: f64) -> i64 {
    if v.is_finite() && v.abs() < 2e6 {
        (v * 1000.0).round() as i64
    } else {
        -7
    }
}

pub struct Plf<'e, 'r> {
    e: &'e mut Ep,
    r: &'r mut R,
    base: Vec<Vec<(i64, i64)>>,
    max: usize,
}

#[derive(Clone)]
struct Reg {
    x: X,
    f: Vec<TTFPoint>,
    ap: Option<(Vec<TTFPoint>, Vec<TTFPoint>)>,
}
impl Reg {
    fn container(&self, approx: bool) -> ATTFContainer<Vec<TTFPoint>> {
        match &self.ap {
            Some((l, u)) if approx => ATTFContainer::Approx(l.clone(), u.clone()),
            _ => ATTFContainer::Exact(self.f.clone()),
        }
    }
}

impl<'e, 'r> Plf<'e, 'r> {
    fn samples(&mut self, fs: &[&[TTFPoint]], a: i64, b: i64, cnt: usize) -> Vec<i64> {
        let mut c = vec![];
        for f in fs {
            for p in f.iter() {
                let t = ms_f(at(p));
                c.extend([t - 1, t, t + 1]);
            }
            for p in f.windows(2) {
                c.push((ms_f(at(&p[0])) + ms_f(at(&p[1]))) / 2);
            }
        }
        for _ in 0..6 {
            c.push(self.r.gen_range(a..=b));
        }
        c.retain(|t| (a..=b).contains(t));
        c.sort();
        c.dedup();
        c.shuffle(self.r);
        c.truncate(cnt);
        c.extend([a, b]);
        c.sort();
        c.dedup();
        c
    }
    /// a function returned for [a, b]: "exact", "lower" (with err) or "upper"
    fn fun(&mut self, at_: &str, x: &X, f: &[TTFPoint], kind: &str, err: i64, a: i64, b: i64, cyc: bool) {
        if self.e.dead {
            return;
        }
        let n = f.len();
        if n == 0 {
            self.e.ev(json!({"op": "fun", "at": at_, "x": x.js(), "kind": "empty"}));
            return;
        }
        let inc = f.windows(2).all(|w| at(&w[0]) < at(&w[1]));
        let fifo = f.windows(2).all(|w| vl(&w[1]) - vl(&w[0]) >= at(&w[0]) - at(&w[1]) - 1e-5);
        let c: Vec<_> = self.samples(&[f], a, b, self.max).into_iter().map(|t| [t, obs(interp(f, t as f64 / 1000.0))]).collect();
        self.e.ev(json!({"op": "fun", "at": at_, "x": x.js(), "kind": kind, "err": err, "a": a, "b": b, "n": n, "inc": inc, "fifo": fifo, "cyc": cyc,
            "first": ms_f(at(&f[0])), "last": (at(&f[n - 1]) * 1000.0 - 1e-2).ceil() as i64, "c": c}));
    }
    fn better(&mut self, at_: &str, x: &X, y: &X, sw: &[(Timestamp, bool)], fs: &[&[TTFPoint]], a: i64, b: i64) {
        if self.e.dead {
            return;
        }
        let mut c = self.samples(fs, a, b, self.max / 2);
        for s in sw {
            let t = ms_f(s.0.into());
            c.extend([t - 3, t + 4].iter().filter(|t| (a..=b).contains(t)));
        }
        c.sort();
        c.dedup();
        let sw: Vec<_> = sw.iter().map(|s| json!([ms_f(s.0.into()), s.1])).collect();
        self.e.ev(json!({"op": "better", "at": at_, "x": x.js(), "y": y.js(), "sw": sw, "a": a, "b": b, "c": c}));
    }
    fn attf(&mut self, at_: &str, x: &X, c: &ATTFContainer<Vec<TTFPoint>>, err: i64, a: i64, b: i64, cyc: bool) {
        match c {
            ATTFContainer::Exact(f) => self.fun(at_, x, f, "exact", 0, a, b, cyc),
            ATTFContainer::Approx(l, u) => {
                self.fun(at_, x, l, "lower", err, a, b, cyc);
                self.fun(at_, x, u, "upper", err, a, b, cyc);
            }
        }
    }
    fn window(&mut self, days: i64) -> (i64, i64) {
        let p = P as i64;
        let a = match self.r.gen_range(0..4) {
            0 => 0,
            1 => *self.base.choose(self.r).unwrap().iter().map(|q| q.0).collect::<Vec<_>>().choose(self.r).unwrap(),
            _ => self.r.gen_range(0..days * p - 10),
        };
        let b = match self.r.gen_range(0..5) {
            0 => p,
            1 => a + p,
            2 => a + self.r.gen_range(1..20_000),
            3 => a + self.r.gen_range(1..p),
            _ => *self.base.choose(self.r).unwrap().iter().map(|q| q.0).collect::<Vec<_>>().choose(self.r).unwrap() + p,
        };
        if b <= a {
            (a, a + 1000)
        } else {
            (a, b)
        }
    }
    /// a chain of arcs travelled one after the other, predicted and with reports in force for some of them
    fn journey(&mut self) {
        let p = P as i64;
        let n = self.r.gen_range(1..4usize);
        let ids: Vec<usize> = (0..n).map(|_| self.r.gen_range(0..self.base.len())).collect();
        let (mut fi, mut d, mut t) = (vec![0u32], vec![], vec![]);
        for &i in &ids {
            for q in &self.base[i] {
                d.push(q.0 as u32);
                t.push(q.1 as u32);
            }
            fi.push(d.len() as u32);
        }
        let fo: Vec<u32> = (0..=n as u32 + 1).map(|v| v.min(n as u32)).collect();
        let head: Vec<u32> = (1..=n as u32).collect();
        let Some(g) = self.e.guard("floating", || TDGraph::new(fo, head, fi, d, t)) else { return };
        let path: Vec<u32> = (0..n as u32).collect();
        let mut xs = vec![B(ids[0])];
        for &i in &ids[1..] {
            xs.push(L(Box::new(xs.last().unwrap().clone()), Box::new(B(i))));
        }
        let f: Vec<TTFPoint> = self.base[ids[0]].iter().map(|q| TTFPoint { at: ts(q.0), val: FlWeight::new(q.1 as f64 / 1000.0) }).collect();
        let c = self.samples(&[&f], 0, p, 5);
        if let Some(v) = self.e.guard("evaluate-path", || c.iter().map(|&t| [t, obs(g.evaluate_path(&path, ts(t)).into())]).collect::<Vec<_>>()) {
            self.e.ev(json!({"op": "ev", "x": xs[n - 1].js(), "c": v}));
        }
        if let Some(v) = self.e.guard("path-with-times", || c.iter().map(|&t| g.get_path_with_times(ts(t), &path)).collect::<Vec<_>>()) {
            for (i, x) in xs.iter().enumerate() {
                let c: Vec<_> = c.iter().zip(&v).map(|(&t, p)| [t, if p.len() == n + 1 && p[i + 1].0 as usize == i + 1 { obs(f64::from(p[i + 1].1) - t as f64 / 1000.0) } else { -7 }]).collect();
                self.e.ev(json!({"op": "ev", "x": x.js(), "c": c}));
            }
            self.e.guard("check-path", || v.iter().for_each(|p| g.check_path(p)));
        }
        let q: Vec<i64> = c.iter().map(|&t| t + xs[n - 1].val(&self.base, t)).collect();
        if let Some(v) = self.e.guard("inverse-path", || {
            q.iter()
                .map(|&t| {
                    let x: f64 = g.inverse_evaluate_path(&path, ts(t)).into();
                    [t, (x * 1000.0 - 0.01).floor() as i64, (x * 1000.0 + 0.01).ceil() as i64]
                })
                .collect::<Vec<_>>()
        }) {
            self.e.ev(json!({"op": "inv", "x": xs[n - 1].js(), "c": v}));
        }
        // reports
        let now = match self.r.gen_range(0..3) {
            0 => 0,
            1 => self.base[ids[0]].choose(self.r).unwrap().0,
            _ => self.r.gen_range(0..p),
        };
        let live: Vec<Option<(u32, u32)>> = ids
            .iter()
            .map(|&i| {
                if self.r.gen_bool(0.3) {
                    return None;
                }
                let soon = now + *[1i64, 500, 5_000, 600_000, 7_200_000].choose(self.r).unwrap();
                let v = B(i).val(&self.base, soon) + *[-7_000_000i64, -60_000, -3_000, -500, -1, 0, 1, 400, 2_000, 50_000, 5_000_000].choose(self.r).unwrap();
                Some((v.max(0) as u32, soon as u32))
            })
            .collect();
        let Some(lg) = self.e.guard("live-graph", || LiveGraph::new(g.clone(), ts(now), &live)) else { return };
        let mut c = vec![];
        for a in 0..n {
            let mut ts_ = vec![now, now + 1, now + self.r.gen_range(0..p), now + p];
            if let Some((v, soon)) = live[a] {
                let (v, s) = (v as i64, soon as i64);
                let gap = (v - B(ids[a]).val(&self.base, s)).abs();
                ts_.extend([s - 1, s, s + 1, s + gap / 2, s + gap, s + gap + 1, s + 2 * gap, s + gap / 3]);
                ts_.extend(self.base[ids[a]].iter().flat_map(|q| [q.0, q.0 + 1, q.0 + p]));
            }
            ts_.retain(|&t| t >= now && t <= now + p);
            ts_.sort();
            ts_.dedup();
            ts_.shuffle(self.r);
            ts_.truncate(14);
            for t in ts_ {
                match self.e.guard("live-evaluate", || obs(lg.travel_time_function(a as u32).evaluate(ts(t)).into())) {
                    None => return,
                    Some(v) => c.push([a as i64 + 1, t, v]),
                }
            }
        }
        let arcs: Vec<_> = (0..n).map(|a| json!([ids[a] + 1, live[a].map(|l| l.0 as i64).unwrap_or(-1), live[a].map(|l| l.1 as i64).unwrap_or(-1)])).collect();
        let mut w = vec![];
        for _ in 0..5 {
            let t = now + self.r.gen_range(0..8_000_000);
            match self.e.guard("live-path", || obs(lg.evaluate_path(&path, ts(t)).into())) {
                None => return,
                Some(v) => w.push([t, v]),
            }
        }
        let Some(b) = self.e.guard("live-bounds", || {
            (0..n as u32).map(|a| (obs(lg.travel_time_function(a).lower_bound().into()), obs(lg.travel_time_function(a).upper_bound().into()))).collect::<Vec<_>>()
        }) else {
            return;
        };
        self.e.ev(json!({"op": "live", "now": now, "arcs": arcs, "c": c, "w": w, "b": b}));
    }
    fn range(&mut self, g: &Reg, a: i64, b: i64) -> Option<Vec<TTFPoint>> {
        self.e.guard("append_range", || {
            let mut v: Vec<TTFPoint> = vec![];
            PLF::append_range(&PeriodicPiecewiseLinearFunction::new(&g.f), ts(a), ts(b), &mut v);
            v
        })
    }
}

fn clone(c: &ATTFContainer<Box<[TTFPoint]>>) -> ATTFContainer<Vec<TTFPoint>> {
    match c {
        ATTFContainer::Exact(f) => ATTFContainer::Exact(f.to_vec()),
        ATTFContainer::Approx(l, u) => ATTFContainer::Approx(l.to_vec(), u.to_vec()),
    }
}
fn exact_merge(f: &[TTFPoint], g: &[TTFPoint], s: Timestamp, t: Timestamp) -> (Box<[TTFPoint]>, Vec<(Timestamp, bool)>) {
    let (mut a, mut b, mut buf): (Vec<TTFPoint>, Vec<TTFPoint>, Vec<TTFPoint>) = (vec![], vec![], vec![]);
    PLF::append_range(&PeriodicPiecewiseLinearFunction::new(f), s, t, &mut a);
    PLF::append_range(&PeriodicPiecewiseLinearFunction::new(g), s, t, &mut b);
    PartialPiecewiseLinearFunction::new(&a).merge(&PartialPiecewiseLinearFunction::new(&b), s, t, &mut buf)
}

pub fn run(e: &mut Ep, r: &mut R, _ep: u64, thorough: bool) {
    let p = P as i64;
    let scale = *[300u32, 1500, 1500, 4000, 60_000, 1_800_000, 7_200_000].choose(r).unwrap();
    let k = r.gen_range(2..5);
    let mut base = vec![];
    for _ in 0..k {
        let mut f: Vec<(i64, i64)> = if r.gen_bool(0.2) && !base.is_empty() {
            // close to another one
            let o: &Vec<(i64, i64)> = base.choose(r).unwrap();
            let d = *[0i64, 0, 1, 2, 500].choose(r).unwrap();
            o.iter().map(|q| (q.0, q.1 + d)).collect()
        } else {
            whole_profile(r, scale).into_iter().map(|q| (q.0 as i64, q.1 as i64)).collect()
        };
        if f.len() > 1 && f.last().unwrap().0 < p {
            let v = f[0].1;
            f.push((p, v));
        }
        base.push(f);
    }
    e.set("base", json!(base));
    let mut regs: Vec<Reg> = base
        .iter()
        .enumerate()
        .map(|(i, f)| Reg { x: B(i), f: f.iter().map(|q| TTFPoint { at: ts(q.0), val: FlWeight::new(q.1 as f64 / 1000.0) }).collect(), ap: None })
        .collect();
    let max = if thorough { 60 } else { 26 };
    let mut m = Plf { e, r, base, max };
    let mut bufs = MergeBuffers::new();
    let ops = m.r.gen_range(6..14);
    for _ in 0..ops {
        if m.e.dead {
            return;
        }
        let g = regs.choose(m.r).unwrap().clone();
        let h = regs.choose(m.r).unwrap().clone();
        let deep = g.x.depth().max(h.x.depth()) >= 3 || g.f.len() + h.f.len() > 80;
        match m.r.gen_range(0..13) {
            12 => m.journey(),
            0 => {
                // evaluation and its inverse
                let mut c = m.samples(&[&g.f], 0, p, 12);
                let n = c.len();
                for i in 0..n {
                    if m.r.gen_bool(0.4) {
                        let d = m.r.gen_range(1..3) * p;
                        c.push(c[i] + d);
                    }
                }
                if let Some(v) = m.e.guard("evaluate", || {
                    let f = PeriodicPiecewiseLinearFunction::new(&g.f);
                    c.iter().map(|&t| [t, obs(f.evaluate(ts(t)).into())]).collect::<Vec<_>>()
                }) {
                    m.e.ev(json!({"op": "ev", "x": g.x.js(), "c": v}));
                }
                let q: Vec<i64> = c.iter().map(|&t| t + g.x.val(&m.base, t)).collect();
                if let Some(v) = m.e.guard("inverse", || {
                    let f = PeriodicPiecewiseLinearFunction::new(&g.f);
                    q.iter()
                        .map(|&t| {
                            let x: f64 = f.inverse_evaluate(ts(t)).into();
                            [t, (x * 1000.0 - 0.01).floor() as i64, (x * 1000.0 + 0.01).ceil() as i64]
                        })
                        .collect::<Vec<_>>()
                }) {
                    m.e.ev(json!({"op": "inv", "x": g.x.js(), "c": v}));
                }
                if let Some((lo, hi, c)) = m.e.guard("bounds", || {
                    let f = PeriodicPiecewiseLinearFunction::new(&g.f);
                    (f.lower_bound(), f.upper_bound(), f.constant())
                }) {
                    let c2: Vec<i64> = m.samples(&[&g.f], 0, p, 40);
                    m.e.ev(json!({"op": "minmax", "x": g.x.js(), "lo": obs(lo.into()), "hi": obs(hi.into()), "const": c, "c": c2, "all": matches!(g.x, B(_))}));
                }
            }
            1 | 2 if !deep => {
                // linking
                let (ga, ha) = (m.r.gen_bool(0.4), m.r.gen_bool(0.4));
                let (ca, cb) = (g.container(ga), h.container(ha));
                if let Some(c) = m.e.guard("link", || PeriodicATTF::from(&ca).link(&PeriodicATTF::from(&cb))) {
                    let x = L(Box::new(g.x.clone()), Box::new(h.x.clone()));
                    m.attf("link", &x, &c, -1, 0, p, true);
                    match c {
                        ATTFContainer::Exact(f) => regs.push(Reg { x, f, ap: None }),
                        ATTFContainer::Approx(l, u) => {
                            if let Some(f) = m.e.guard("link", || PeriodicPiecewiseLinearFunction::new(&g.f).link(&PeriodicPiecewiseLinearFunction::new(&h.f))) {
                                regs.push(Reg { x, f, ap: Some((l, u)) });
                            }
                        }
                    }
                }
            }
            3 | 4 if !deep => {
                // merging
                let (ga, ha) = (m.r.gen_bool(0.5), m.r.gen_bool(0.5));
                let (ca, cb) = (g.container(ga), h.container(ha));
                let res = m.e.guard("merge", || {
                    PeriodicATTF::from(&ca).merge(&PeriodicATTF::from(&cb), &mut bufs, |s, t, _| exact_merge(&g.f, &h.f, s, t))
                });
                if let Some((c, sw)) = res {
                    let x = M(Box::new(g.x.clone()), Box::new(h.x.clone()));
                    let c = clone(&c);
                    m.attf("merge", &x, &c, -1, 0, p, true);
                    m.better("merge", &g.x, &h.x, &sw, &[&g.f, &h.f], 0, p);
                    match c {
                        ATTFContainer::Exact(f) => regs.push(Reg { x, f, ap: None }),
                        ATTFContainer::Approx(l, u) => {
                            if let Some((f, sw)) = m.e.guard("merge", || {
                                PeriodicPiecewiseLinearFunction::new(&g.f).merge(&PeriodicPiecewiseLinearFunction::new(&h.f), &mut vec![])
                            }) {
                                m.better("merge-exact", &g.x, &h.x, &sw, &[&g.f, &h.f], 0, p);
                                regs.push(Reg { x, f: f.to_vec(), ap: Some((l, u)) });
                            }
                        }
                    }
                }
            }
            5 | 6 => {
                // approximation
                if g.f.len() < 2 {
                    continue;
                }
                let again = g.ap.is_some() && m.r.gen_bool(0.3);
                let c0 = g.container(again);
                if let Some(c) = m.e.guard("approximate", || clone(&PeriodicATTF::from(&c0).approximate(&mut bufs))) {
                    m.attf("approximate", &g.x, &c, if again { -1 } else { 2000 }, 0, p, true);
                    if let ATTFContainer::Approx(l, u) = c {
                        regs.push(Reg { ap: Some((l, u)), ..g.clone() });
                    }
                }
                if let Some((a, l, u)) = m.e.guard("approximate-plf", || {
                    let f = PeriodicPiecewiseLinearFunction::new(&g.f);
                    (f.approximate(&mut vec![]), f.lower_bound_ttf(&mut vec![], &mut vec![]), f.upper_bound_ttf(&mut vec![], &mut vec![]))
                }) {
                    m.fun("approximate", &g.x, &a, "near", 1000, 0, p, true);
                    m.fun("lower_bound_ttf", &g.x, &l, "lower", 2000, 0, p, true);
                    m.fun("upper_bound_ttf", &g.x, &u, "upper", 2000, 0, p, true);
                }
            }
            7 | 8 => {
                // restricted to an interval
                let (a, b) = m.window(2);
                let f = match m.range(&g, a, b) {
                    Some(f) => f,
                    None => return,
                };
                m.fun("append_range", &g.x, &f, "exact", 0, a, b, false);
                let (mut s, mut t) = (m.r.gen_range(a..=b), m.r.gen_range(a..=b));
                if s > t {
                    std::mem::swap(&mut s, &mut t);
                }
                if s < t {
                    if let Some(q) = m.e.guard("sub_plf", || PartialPiecewiseLinearFunction::new(&f).sub_plf(ts(s), ts(t)).to_vec()) {
                        m.fun("sub_plf", &g.x, &q, "exact", 0, s, t, false);
                    }
                }
                // linked or merged with another one
                let apx = m.r.gen_bool(0.3);
                let mut pa = ATTFContainer::Exact(f.clone());
                if apx {
                    if let Some(c) = m.e.guard("partial-approximate", || clone(&PartialATTF::from(&pa).approximate(&mut bufs))) {
                        m.attf("partial-approximate", &g.x, &c, 2000, a, b, false);
                        pa = c;
                    }
                }
                if m.e.dead {
                    return;
                }
                let (lo, hi) = match &pa {
                    ATTFContainer::Exact(_) => (a + g.x.val(&m.base, a), b + g.x.val(&m.base, b)),
                    ATTFContainer::Approx(l, u) => (a + (interp(l, a as f64 / 1000.0) * 1000.0).floor() as i64 - 1, b + (interp(u, b as f64 / 1000.0) * 1000.0).ceil() as i64 + 1),
                };
                if m.r.gen_bool(0.5) && lo < hi && lo >= 0 {
                    let q = match m.range(&h, lo, hi) {
                        Some(q) => q,
                        None => return,
                    };
                    let mut pb = ATTFContainer::Exact(q);
                    if apx && m.r.gen_bool(0.5) {
                        match m.e.guard("partial-approximate", || clone(&PartialATTF::from(&pb).approximate(&mut bufs))) {
                            Some(c) => pb = c,
                            None => return,
                        }
                    }
                    if let Some(c) = m.e.guard("partial-link", || PartialATTF::from(&pa).link(&PartialATTF::from(&pb), ts(a), ts(b))) {
                        let x = L(Box::new(g.x.clone()), Box::new(h.x.clone()));
                        m.attf("partial-link", &x, &c, -1, a, b, false);
                    }
                } else {
                    let q = match m.range(&h, a, b) {
                        Some(q) => q,
                        None => return,
                    };
                    let mut pb = ATTFContainer::Exact(q.clone());
                    if apx && m.r.gen_bool(0.5) {
                        match m.e.guard("partial-approximate", || clone(&PartialATTF::from(&pb).approximate(&mut bufs))) {
                            Some(c) => pb = c,
                            None => return,
                        }
                    }
                    if let Some((c, sw)) = m.e.guard("partial-merge", || {
                        PartialATTF::from(&pa).merge(&PartialATTF::from(&pb), ts(a), ts(b), &mut bufs, |s, t, _| exact_merge(&g.f, &h.f, s, t))
                    }) {
                        let x = M(Box::new(g.x.clone()), Box::new(h.x.clone()));
                        m.attf("partial-merge", &x, &clone(&c), -1, a, b, false);
                        m.better("partial-merge", &g.x, &h.x, &sw, &[&f, &q], a, b);
                    }
                }
            }
            9 | 10 => {
                // pieces of one function, gathered in any order
                let mut cont: Option<ApproxPartialsContainer<Box<[TTFPoint]>>> = None;
                m.e.ev(json!({"op": "pieces"}));
                let apx = m.r.gen_bool(0.4);
                let per = m.r.gen_bool(0.5);
                for _ in 0..m.r.gen_range(2..7) {
                    let (a, b) = m.window(2);
                    let gaps: Vec<(Timestamp, Timestamp)> = match &cont {
                        None => vec![(ts(a), ts(b))],
                        Some(c) => match m.e.guard("missing", || c.missing(ts(a), ts(b))) {
                            Some(x) => x,
                            None => return,
                        },
                    };
                    if cont.is_some() {
                        let gs: Vec<_> = gaps.iter().map(|q| [(f64::from(q.0) * 1000.0).round() as i64, (f64::from(q.1) * 1000.0).round() as i64]).collect();
                        m.e.ev(json!({"op": "missing", "a": a, "b": b, "gaps": gs}));
                    } else {
                        m.e.ev(json!({"op": "missing", "a": a, "b": b, "gaps": [[a, b]]}));
                    }
                    let mut ins = vec![];
                    for (s, t) in gaps {
                        let part = m.e.guard("append_range", || {
                            let mut v: Vec<TTFPoint> = vec![];
                            PLF::append_range(&PeriodicPiecewiseLinearFunction::new(&g.f), s, t, &mut v);
                            v
                        });
                        let part = match part {
                            Some(v) => v,
                            None => return,
                        };
                        let mut c = ATTFContainer::Exact(part.into_boxed_slice());
                        if apx {
                            c = match m.e.guard("partial-approximate", || PartialATTF::from(&c).approximate(&mut bufs)) {
                                Some(c) => c,
                                None => return,
                            };
                        }
                        ins.push(Partial { start: s, end: t, ttf: c });
                    }
                    if !ins.is_empty() {
                        match &mut cont {
                            None => cont = Some(ApproxPartialsContainer::new(ins)),
                            Some(c) => {
                                if m.e.guard("insert_all", || c.insert_all(ins)).is_none() {
                                    return;
                                }
                            }
                        }
                    }
                    let c = cont.as_mut().unwrap();
                    if per {
                        if m.e.guard("maybe_to_periodic", || c.maybe_to_periodic()).is_none() {
                            return;
                        }
                        let full = m.e.guard("ttf", || {
                            c.ttf(Timestamp::ZERO, period()).map(|t| match t {
                                PartialATTF::Exact(f) => ATTFContainer::Exact(f.to_vec()),
                                PartialATTF::Approx(l, u) => ATTFContainer::Approx(l.to_vec(), u.to_vec()),
                            })
                        });
                        match full {
                            None => return,
                            Some(Some(f)) => {
                                m.attf("to-periodic", &g.x, &f, -1, 0, p, true);
                                // it is complete now
                                let c = cont.take().unwrap();
                                if let Some(x) = m.e.guard("into-periodic", || {
                                    let t: Result<ATTFContainer<Box<[TTFPoint]>>, ()> = c.try_into();
                                    t.map(|t| clone(&t)).ok()
                                }) {
                                    match x {
                                        Some(c) => m.attf("into-periodic", &g.x, &c, -1, 0, p, true),
                                        None => {
                                            // not periodic: the pieces reach further than the period
                                        }
                                    }
                                }
                                break;
                            }
                            Some(None) => (),
                        }
                    }
                    let c = cont.as_ref().unwrap();
                    let t = m.e.guard("ttf", || {
                        c.ttf(ts(a), ts(b)).map(|t| match t {
                            PartialATTF::Exact(f) => ATTFContainer::Exact(f.to_vec()),
                            PartialATTF::Approx(l, u) => ATTFContainer::Approx(l.to_vec(), u.to_vec()),
                        })
                    });
                    match t {
                        None => return,
                        Some(None) => m.e.ev(json!({"op": "absent", "a": a, "b": b})),
                        Some(Some(c)) => m.attf("pieces", &g.x, &c, -1, a, b, false),
                    }
                }
            }
            _ => {
                // an update in force for some time
                let (a, b) = m.window(2);
                let v1 = g.x.val(&m.base, b);
                let k = m.r.gen_range(-1..2);
                let v0 = v1 - k * (b - a);
                if v0 < 0 || v0 > 20_000_000 {
                    continue;
                }
                let x = U(Box::new(g.x.clone()), a, v0, b);
                let up = [TTFPoint { at: ts(a), val: FlWeight::new(v0 as f64 / 1000.0) }, TTFPoint { at: ts(b), val: FlWeight::new(v1 as f64 / 1000.0) }];
                let mut c = m.samples(&[&g.f, &up], a, b + p / 2, 14);
                c.extend([b, b + 1]);
                if let Some(v) = m.e.guard("updated-evaluate", || {
                    let f = UpdatedPiecewiseLinearFunction::new(PeriodicPiecewiseLinearFunction::new(&g.f), &up);
                    c.iter().map(|&t| [t, obs(f.evaluate(ts(t)).into())]).collect::<Vec<_>>()
                }) {
                    m.e.ev(json!({"op": "ev", "x": x.js(), "c": v}));
                }
                let mut s = m.r.gen_range(a..b + p / 2);
                let t = match m.r.gen_range(0..3) {
                    0 => b,
                    1 => b + 1,
                    _ => m.r.gen_range(a + 1..b + p),
                };
                if s >= t {
                    s = a;
                }
                if let Some(v) = m.e.guard("updated-range", || {
                    let f = UpdatedPiecewiseLinearFunction::new(PeriodicPiecewiseLinearFunction::new(&g.f), &up);
                    let mut v: Vec<TTFPoint> = vec![];
                    f.append_range(ts(s), ts(t), &mut v);
                    v
                }) {
                    m.fun("updated-range", &x, &v, "exact", 0, s, t, false);
                }
            }
        }
    }
}
