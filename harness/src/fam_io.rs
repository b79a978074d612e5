//! The disk format: single files, and objects stored in several files.
use crate::fam_cch::{arrays, build_json, cch_graph, order_for, pool};
use crate::fam_td::TD;
use crate::util::*;
use rand::prelude::*;
use rust_road_router::algo::{ch_potentials::*, customizable_contraction_hierarchy::*};
use rust_road_router::datastr::graph::{first_out_graph::*, time_dependent::TDGraph, *};
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::datastr::rank_select_map::BitVec;
use rust_road_router::io::*;
use rust_road_router::util::in_range_option::InRangeOption;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        use std::sync::atomic::*;
        static C: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("rrr-{}-{}-{}", tag, std::process::id(), C.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}

trait El: Copy + Default + PartialEq {
    const T: &'static str;
    fn digits(&self) -> Vec<u32>;
    fn rnd(r: &mut R) -> Self;
}
fn d32(x: u32) -> Vec<u32> {
    vec![x & 0xffff, x >> 16]
}
fn d64(x: u64) -> Vec<u32> {
    let mut v = d32(x as u32);
    v.extend(d32((x >> 32) as u32));
    v
}
impl El for u8 {
    const T: &'static str = "u8";
    fn digits(&self) -> Vec<u32> {
        vec![*self as u32]
    }
    fn rnd(r: &mut R) -> u8 {
        r.gen()
    }
}
impl El for u16 {
    const T: &'static str = "u16";
    fn digits(&self) -> Vec<u32> {
        vec![*self as u32]
    }
    fn rnd(r: &mut R) -> u16 {
        r.gen()
    }
}
impl El for u32 {
    const T: &'static str = "u32";
    fn digits(&self) -> Vec<u32> {
        d32(*self)
    }
    fn rnd(r: &mut R) -> u32 {
        *[r.gen(), r.gen_range(0..300), u32::MAX, INF].choose(r).unwrap()
    }
}
impl El for f32 {
    const T: &'static str = "f32";
    fn digits(&self) -> Vec<u32> {
        d32(self.to_bits())
    }
    fn rnd(r: &mut R) -> f32 {
        *[r.gen(), -49.0, f32::INFINITY, -0.0].choose(r).unwrap()
    }
}
impl El for u64 {
    const T: &'static str = "u64";
    fn digits(&self) -> Vec<u32> {
        d64(*self)
    }
    fn rnd(r: &mut R) -> u64 {
        *[r.gen(), r.gen_range(0..300), u64::MAX].choose(r).unwrap()
    }
}
impl El for f64 {
    const T: &'static str = "f64";
    fn digits(&self) -> Vec<u32> {
        d64(self.to_bits())
    }
    fn rnd(r: &mut R) -> f64 {
        *[r.gen(), -49.0, f64::INFINITY, -0.0].choose(r).unwrap()
    }
}
impl El for InRangeOption<u32> {
    const T: &'static str = "opt";
    fn digits(&self) -> Vec<u32> {
        d32(self.value().unwrap_or(u32::MAX))
    }
    fn rnd(r: &mut R) -> Self {
        if r.gen() {
            InRangeOption::some(r.gen_range(0..1000))
        } else {
            InRangeOption::NONE
        }
    }
}
impl El for (u32, u32) {
    const T: &'static str = "pair";
    fn digits(&self) -> Vec<u32> {
        let mut v = d32(self.0);
        v.extend(d32(self.1));
        v
    }
    fn rnd(r: &mut R) -> Self {
        (r.gen(), u32::rnd(r))
    }
}
impl El for (u32, u32, u32) {
    const T: &'static str = "triple";
    fn digits(&self) -> Vec<u32> {
        let mut v = d32(self.0);
        v.extend(d32(self.1));
        v.extend(d32(self.2));
        v
    }
    fn rnd(r: &mut R) -> Self {
        (r.gen(), u32::rnd(r), r.gen())
    }
}
fn dv<T: El>(v: &[T]) -> Vec<Vec<u32>> {
    v.iter().map(|x| x.digits()).collect()
}

fn write<T: El>(e: &mut Ep, r: &mut R, dir: &Path, f: &str) {
    let k = *[0usize, 1, 2, 3, 7, 20].choose(r).unwrap();
    let v: Vec<T> = (0..k).map(|_| T::rnd(r)).collect();
    let p = dir.join(f);
    let how = r.gen_range(0..4);
    if e
        .guard("write_to", || match how {
            0 => v.write_to(&p).unwrap(),
            1 => (&v[..]).write_to(&p).unwrap(),
            2 => v[..].write_to(&p).unwrap(),
            _ => v.clone().into_boxed_slice().write_to(&p).unwrap(),
        })
        .is_some()
    {
        e.ev(json!({"op": "w", "f": f, "t": T::T, "v": dv(&v)}));
    }
}
/// a rejection is an error or a panic
fn quietly<T>(f: impl FnOnce() -> std::io::Result<T>) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok().and_then(|r| r.ok())
}
fn load<T: El>(e: &mut Ep, r: &mut R, dir: &Path, f: &str) {
    let p = dir.join(f);
    let v: Option<Vec<T>> = if r.gen() { quietly(|| Vec::<T>::load_from(&p)) } else { quietly(|| Box::<[T]>::load_from(&p)).map(|b| b.into_vec()) };
    match v {
        Some(v) => e.ev(json!({"op": "ld", "f": f, "t": T::T, "ok": true, "v": dv(&v)})),
        None => e.ev(json!({"op": "ld", "f": f, "t": T::T, "ok": false})),
    }
}
fn raw(e: &mut Ep, dir: &Path, f: &str) {
    if let Ok(b) = std::fs::read(dir.join(f)) {
        e.ev(json!({"op": "raw", "f": f, "b": b}));
    }
}

fn all_files(base: &Path, rel: &str, out: &mut Vec<(String, Vec<u8>)>) {
    let mut names: Vec<_> = std::fs::read_dir(base.join(rel)).unwrap().map(|x| x.unwrap()).collect();
    names.sort_by_key(|x| x.file_name());
    for x in names {
        let p = format!("{}/{}", rel, x.file_name().to_str().unwrap());
        if x.path().is_dir() {
            all_files(base, &p, out);
        } else {
            out.push((p, std::fs::read(x.path()).unwrap()));
        }
    }
}
pub fn files(base: &Path, d: &str) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    all_files(base, d, &mut v);
    v
}

/// one stored object: how to store it, what it shows, how to read it back
pub struct Obj<'a> {
    pub d: String,
    pub k: &'static str,
    pub beh: Value,
    pub parts: Value,
    pub store: Box<dyn Fn(&Path) -> std::io::Result<()> + 'a>,
    pub read: Box<dyn Fn(&Path) -> std::io::Result<Value> + 'a>,
}

pub fn round_trip(e: &mut Ep, r: &mut R, base: &Path, o: &Obj) {
    let d = base.join(&o.d);
    if e.guard("deconstruct_to", || (o.store)(&d).unwrap()).is_none() {
        return;
    }
    // other objects' files may be around
    let fresh = base.join("fresh");
    if e.guard("deconstruct_to", || (o.store)(&fresh).unwrap()).is_none() {
        return;
    }
    let own: Vec<String> = files(base, "fresh").into_iter().map(|f| format!("{}{}", o.d, &f.0[5..])).collect();
    std::fs::remove_dir_all(&fresh).unwrap();
    let files = |b: &Path, d: &str| files(b, d).into_iter().filter(|f| own.contains(&f.0)).collect::<Vec<_>>();
    let fs = files(base, &o.d);
    if e.guard("deconstruct_to", || (o.store)(&d).unwrap()).is_none() {
        return;
    }
    let again = files(base, &o.d);
    e.ev(json!({"op": "dec", "d": o.d, "k": o.k, "parts": o.parts, "files": fs, "again": again, "beh": o.beh.to_string()}));
    reread(e, base, o);
    // sizes that do not fit
    for _ in 0..2 {
        let (f, b) = fs.choose(r).unwrap().clone();
        let mut nb = b.clone();
        match r.gen_range(0..6) {
            0 if b.len() >= 1 => nb.truncate(b.len() - 1),
            1 => nb.push(0),
            2 if b.len() >= 4 => nb.truncate(b.len() - 4),
            3 if b.len() >= 8 => nb.truncate(b.len() - 8),
            4 if b.len() >= 8 => nb.extend_from_slice(&[1, 2, 3, 0, 4, 5, 6, 0]),
            _ => nb.extend_from_slice(&[1, 2, 3, 0]),
        }
        // fewer nodes at the end without arcs: a consistent graph as well
        if f.ends_with("first_out") && nb.len() < b.len() && nb.len() % 4 == 0 && nb.ends_with(&b[b.len() - 4..]) {
            continue;
        }
        // input data of other tools, whose arrays are not checked against each other
        if (o.k == "td" || o.k == "chpot" && f.ends_with("order")) && nb.len() % 4 == 0 {
            continue;
        }
        std::fs::write(base.join(&f), &nb).unwrap();
        e.ev(json!({"op": "mk", "f": f, "b": nb}));
        reread(e, base, o);
        if r.gen() {
            std::fs::remove_file(base.join(&f)).unwrap();
            e.ev(json!({"op": "rm", "f": f}));
            reread(e, base, o);
        }
        std::fs::write(base.join(&f), &b).unwrap();
        e.ev(json!({"op": "mk", "f": f, "b": b}));
    }
    reread(e, base, o);
}
fn reread(e: &mut Ep, base: &Path, o: &Obj) {
    let d = base.join(&o.d);
    match quietly(|| (o.read)(&d)) {
        Some(b) => e.ev(json!({"op": "rec", "d": o.d, "k": o.k, "ok": true, "beh": b.to_string()})),
        None => e.ev(json!({"op": "rec", "d": o.d, "k": o.k, "ok": false, "beh": ""})),
    }
}

fn gj<W: Copy + Into<u64>, A: AsRef<[u32]>, B: AsRef<[u32]>, C: AsRef<[W]>>(g: &FirstOutGraph<A, B, C, W>) -> Value {
    json!([g.first_out(), g.head(), g.weight().iter().map(|&w| { let x: u64 = w.into(); d64(x) }).collect::<Vec<_>>()])
}
/// the documented layout: names and arrays
fn parts(d: &str, v: Vec<(&str, &[u32])>) -> Value {
    json!(v.iter().map(|(n, a)| json!([format!("{}/{}", d, n), "u32", dv(a)])).collect::<Vec<_>>())
}

pub fn run_io(e: &mut Ep, r: &mut R, ep: u64, _thorough: bool) {
    let s = Scratch::new("io");
    let base = s.0.as_path();
    if ep % 3 == 0 {
        let names = ["a", "b", "c"];
        for _ in 0..r.gen_range(6..20) {
            let f = *names.choose(r).unwrap();
            match r.gen_range(0..12) {
                0..=4 => match r.gen_range(0..10) {
                    0 => write::<u8>(e, r, base, f),
                    1 => write::<u16>(e, r, base, f),
                    2 => write::<u32>(e, r, base, f),
                    3 => write::<u64>(e, r, base, f),
                    4 => write::<f32>(e, r, base, f),
                    5 => write::<f64>(e, r, base, f),
                    6 => write::<InRangeOption<u32>>(e, r, base, f),
                    7 => write::<(u32, u32)>(e, r, base, f),
                    8 => write::<(u32, u32, u32)>(e, r, base, f),
                    _ => {
                        let n = *[1usize, 5, 63, 64, 65, 127, 128, 130].choose(r).unwrap();
                        let mut b = BitVec::new(n);
                        for _ in 0..r.gen_range(0..n) {
                            b.set(r.gen_range(0..n));
                        }
                        if r.gen_bool(0.2) {
                            b.set_all();
                        }
                        b.unset(r.gen_range(0..n));
                        let p = base.join(f);
                        if e.guard("write_to", || b.write_to(&p).unwrap()).is_some() {
                            e.ev(json!({"op": "w", "f": f, "t": "bits", "size": n, "v": (0..n).filter(|&i| b.get(i)).collect::<Vec<_>>()}));
                        }
                    }
                },
                5 => {
                    let n = r.gen_range(0..30);
                    let b: Vec<u8> = (0..n).map(|_| r.gen()).collect();
                    std::fs::write(base.join(f), &b).unwrap();
                    e.ev(json!({"op": "mk", "f": f, "b": b}));
                }
                6 if base.join(f).exists() && r.gen_bool(0.3) => {
                    std::fs::remove_file(base.join(f)).unwrap();
                    e.ev(json!({"op": "rm", "f": f}));
                }
                7 => raw(e, base, f),
                _ => match r.gen_range(0..10) {
                    0 => load::<u8>(e, r, base, f),
                    1 => load::<u16>(e, r, base, f),
                    2 => load::<u32>(e, r, base, f),
                    3 => load::<u64>(e, r, base, f),
                    4 => load::<f32>(e, r, base, f),
                    5 => load::<f64>(e, r, base, f),
                    6 => load::<InRangeOption<u32>>(e, r, base, f),
                    7 => load::<(u32, u32)>(e, r, base, f),
                    8 => load::<(u32, u32, u32)>(e, r, base, f),
                    _ => {
                        let p = base.join(f);
                        if std::fs::metadata(&p).map(|m| m.len() == 0).unwrap_or(false) {
                            continue;
                        }
                        match quietly(|| BitVec::load_from(&p)) {
                            Some(b) => {
                                let n = b.len();
                                e.ev(json!({"op": "ld", "f": f, "t": "bits", "ok": true, "size": n, "ones": b.count_ones(), "v": (0..n).filter(|&i| b.get(i)).collect::<Vec<_>>()}))
                            }
                            None => e.ev(json!({"op": "ld", "f": f, "t": "bits", "ok": false})),
                        }
                    }
                },
            }
        }
        for f in names {
            raw(e, base, f);
        }
        return;
    }
    // composite objects; directories are reused, so that stale files of other objects are around
    for _ in 0..2 {
        let d = ["x", "y"].choose(r).unwrap().to_string();
        let mut o = Opt::rand(r);
        o.inf = r.gen_bool(0.3);
        let g = gen_graph(r, 1, 9, &o);
        let og = g.owned();
        match r.gen_range(0..9) {
            0 => round_trip(e, r, base, &Obj {
                d: d.clone(), k: "graph", beh: gj(&og), parts: parts(&d, vec![("first_out", &g.fo), ("head", &g.head), ("weights", &g.w)]),
                store: Box::new(|p| og.deconstruct_to(&p)),
                read: Box::new(|p| OwnedGraph::<u32>::reconstruct_from(&p).map(|x| gj(&x))),
            }),
            1 => {
                let og2 = FirstOutGraph::<_, _, _, u64>::new(&g.fo[..], &g.head[..], g.w.iter().map(|&w| (w as u64) << 20).collect::<Vec<u64>>());
                round_trip(e, r, base, &Obj {
                    d: d.clone(), k: "graph64", beh: gj(&og2), parts: parts(&d, vec![("first_out", &g.fo), ("head", &g.head)]),
                    store: Box::new(|p| og2.deconstruct_to(&p)),
                    read: Box::new(|p| OwnedGraph::<u64>::reconstruct_from(&p).map(|x| gj(&x))),
                });
            }
            2 => round_trip(e, r, base, &Obj {
                d: d.clone(), k: "wgraph", beh: gj(&og), parts: parts(&d, vec![("first_out", &g.fo), ("head", &g.head), ("travel_time", &g.w)]),
                store: Box::new(|p| {
                    std::fs::create_dir_all(p)?;
                    g.fo.write_to(&p.join("first_out"))?;
                    g.head.write_to(&p.join("head"))?;
                    g.w.write_to(&p.join("travel_time"))
                }),
                read: Box::new(|p| WeightedGraphReconstructor("travel_time").reconstruct_from(&p).map(|x| gj(&x))),
            }),
            3 => {
                let ug = UnweightedOwnedGraph::new(g.fo.clone(), g.head.clone());
                let uj = |u: &UnweightedOwnedGraph| json!([u.first_out(), u.head()]);
                round_trip(e, r, base, &Obj {
                    d: d.clone(), k: "ugraph", beh: uj(&ug), parts: parts(&d, vec![("first_out", &g.fo), ("head", &g.head)]),
                    store: Box::new(|p| ug.deconstruct_to(&p)),
                    read: Box::new(|p| UnweightedOwnedGraph::reconstruct_from(&p).map(|x| uj(&x))),
                });
            }
            4 => {
                let n = r.gen_range(1..12);
                let or = rand_order(r, n);
                let nj = |o: &NodeOrder| json!([o.order(), o.ranks()]);
                round_trip(e, r, base, &Obj {
                    d: d.clone(), k: "order", beh: nj(&or), parts: parts(&d, vec![("ranks", or.ranks())]),
                    store: Box::new(|p| or.deconstruct_to(&p)),
                    // a permutation of another size is a valid order of other nodes: the reader knows how many
                    read: Box::new(|p| NodeOrder::reconstruct_from(&p).and_then(|x| if x.len() == n { Ok(nj(&x)) } else { Err(std::io::ErrorKind::InvalidData.into()) })),
                });
            }
            5 => {
                // witness based hierarchy as written by other tools
                let up = OwnedGraph::from_adjancecy_lists((0..g.n).map(|_| (0..r.gen_range(0..3)).map(|_| Link { node: r.gen_range(0..g.n as u32), weight: r.gen_range(0..9) }).collect()).collect());
                let or = rand_order(r, g.n);
                let lj = |l: &CHPotLoader| json!([gj(&l.forward_graph()), gj(&l.backward_graph()), l.order().order()]);
                let f = parts(&d, vec![("forward_first_out", &g.fo), ("forward_head", &g.head), ("forward_weight", &g.w), ("backward_first_out", up.first_out()), ("backward_head", up.head()), ("backward_weight", up.weight()), ("order", or.order())]);
                round_trip(e, r, base, &Obj {
                    d: d.clone(), k: "chpot", beh: json!([gj(&og), gj(&up), or.order()]), parts: f,
                    store: Box::new(|p| {
                        std::fs::create_dir_all(p)?;
                        g.fo.write_to(&p.join("forward_first_out"))?;
                        g.head.write_to(&p.join("forward_head"))?;
                        g.w.write_to(&p.join("forward_weight"))?;
                        up.first_out().write_to(&p.join("backward_first_out"))?;
                        up.head().write_to(&p.join("backward_head"))?;
                        up.weight().write_to(&p.join("backward_weight"))?;
                        or.order().write_to(&p.join("order"))
                    }),
                    read: Box::new(|p| CHPotLoader::reconstruct_from(&p).map(|x| lj(&x))),
                });
            }
            6 => {
                let td = TD::rand(r, &g, 0);
                let ts: Vec<u32> = (0..8).map(|_| r.gen_range(0..86_400_000)).collect();
                let (fi, dep, tt) = td.arrays();
                let gr = td.graph();
                let tj = |x: &TDGraph| json!([x.first_out(), x.head(), (0..x.num_arcs() as u32).map(|a| ts.iter().map(|&t| x.travel_time_function(a).eval(t)).collect::<Vec<_>>()).collect::<Vec<_>>()]);
                let f = parts(&d, vec![("first_out", &td.g.fo), ("head", &td.g.head), ("first_ipp_of_arc", &fi), ("ipp_departure_time", &dep), ("ipp_travel_time", &tt)]);
                let (fo, hd) = (td.g.fo.clone(), td.g.head.clone());
                round_trip(e, r, base, &Obj {
                    d: d.clone(), k: "td", beh: tj(&gr), parts: f,
                    store: Box::new(move |p| {
                        std::fs::create_dir_all(p)?;
                        fo.write_to(&p.join("first_out"))?;
                        hd.write_to(&p.join("head"))?;
                        fi.write_to(&p.join("first_ipp_of_arc"))?;
                        dep.write_to(&p.join("ipp_departure_time"))?;
                        tt.write_to(&p.join("ipp_travel_time"))
                    }),
                    read: Box::new(|p| TDGraph::reconstruct_from(&p).map(|x| tj(&x))),
                });
            }
            k => {
                let (cg, big) = cch_graph(r, 0, true);
                let cgo = cg.owned();
                let or = order_for(r, &cg, big);
                let Some(cch) = e.guard("fix_order_and_build", || CCH::fix_order_and_build(&cgo, or.clone())) else { return };
                if k == 7 {
                    round_trip(e, r, base, &Obj {
                        d: d.clone(), k: "cch", beh: build_json("x", cch.node_order(), &cch), parts: parts(&d, vec![("ranks", cch.node_order().ranks())]),
                        store: Box::new(|p| cch.deconstruct_to(&p).and_then(|_| cch.node_order().deconstruct_to(&p))),
                        read: Box::new(|p| CCHReconstrctor(&cgo).reconstruct_from(&p).map(|x| build_json("x", x.node_order(), &x))),
                    });
                } else {
                    let th = *crate::fam_cch::THREADS.choose(r).unwrap();
                    let Some(c) = e.guard("customize_perfect", || pool(th).install(|| customize_perfect(customize(&cch, &cgo)))) else { return };
                    fn aj<C: Customized>(c: &C) -> Value {
                        let (a, b) = arrays(c);
                        json!([a, b])
                    }
                    round_trip(e, r, base, &Obj {
                        d: d.clone(), k: "perfect", beh: aj(&c), parts: json!([]),
                        store: Box::new(|p| c.deconstruct_to(&p)),
                        read: Box::new(|p| {
                            let x: CustomizedPerfect<CCH> = (&cch).reconstruct_from(&p)?;
                            Ok(aj(&x))
                        }),
                    });
                }
            }
        }
    }
}
