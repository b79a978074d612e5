//! Queues, resettable containers, identifier maps.
use crate::util::*;
use rand::prelude::*;
use rust_road_router::datastr::clearlist_vector::ClearlistVector;
use rust_road_router::datastr::graph::link_id_to_tail_mapper::*;
use rust_road_router::datastr::heap::Heap;
use rust_road_router::datastr::index_heap::*;
use rust_road_router::datastr::rank_select_map::*;
use rust_road_router::datastr::timestamped_vector::*;
use rust_road_router::util::in_range_option::InRangeOption;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
struct Item {
    key: u32,
    id: u32,
}
impl PartialEq for Item {
    fn eq(&self, o: &Item) -> bool {
        self.key == o.key
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Item) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Item) -> std::cmp::Ordering {
        self.key.cmp(&o.key)
    }
}
impl Indexing for Item {
    fn as_index(&self) -> usize {
        self.id as usize
    }
}

fn it(x: Option<&Item>) -> Value {
    x.map(|x| json!([x.id, x.key])).unwrap_or(json!([]))
}

fn pq_ev(e: &mut Ep, q: &IndexdMinHeap<Item>, n: usize, mut v: Value) {
    let o = e.guard("pq.observe", || {
        let has: Vec<bool> = (0..n).map(|i| q.contains_index(i)).collect();
        let get: Vec<i64> = (0..n).map(|i| q.get(i).map(|x| if x.id as usize == i { x.key as i64 } else { -5 }).unwrap_or(-1)).collect();
        let el: Vec<Value> = q.elements().iter().map(|x| json!([x.id, x.key])).collect();
        (q.len(), q.is_empty(), has, get, el, it(q.peek()))
    });
    if let Some((len, empty, has, get, el, peek)) = o {
        let m = v.as_object_mut().unwrap();
        m.insert("len".into(), json!(len));
        m.insert("empty".into(), json!(empty));
        m.insert("has".into(), json!(has));
        m.insert("get".into(), json!(get));
        m.insert("elems".into(), json!(el));
        m.insert("peek".into(), peek);
        e.ev(v);
    }
}

/// one operation: code, id, key
fn pq_op(e: &mut Ep, q: &mut IndexdMinHeap<Item>, cur: &mut Vec<Option<u32>>, n: usize, op: &str, id: u32, key: u32) {
    let x = Item { key, id };
    let i = id as usize;
    // keep to the documented preconditions, judged by what was done so far
    let v = match op {
        "push" if cur[i].is_none() => {
            cur[i] = Some(key);
            e.guard("push", || q.push(x)).map(|_| json!({"op": "pq.push", "id": id, "key": key}))
        }
        "pushu" => {
            if cur[i].is_none() {
                cur[i] = Some(key);
            }
            e.guard("push_unless_contained", || q.push_unless_contained(x)).map(|_| json!({"op": "pq.pushu", "id": id, "key": key}))
        }
        "dec" if cur[i].map(|c| key <= c).unwrap_or(false) => {
            cur[i] = Some(key);
            e.guard("decrease_key", || q.decrease_key(x)).map(|_| json!({"op": "pq.dec", "id": id, "key": key}))
        }
        "inc" if cur[i].map(|c| key >= c).unwrap_or(false) => {
            cur[i] = Some(key);
            e.guard("increase_key", || q.increase_key(x)).map(|_| json!({"op": "pq.inc", "id": id, "key": key}))
        }
        "upd" if cur[i].is_some() => {
            cur[i] = Some(key);
            e.guard("update_key", || q.update_key(x)).map(|_| json!({"op": "pq.upd", "id": id, "key": key}))
        }
        "pop" => {
            let r = e.guard("pop", || q.pop());
            if let Some(Some(x)) = &r {
                if let Some(c) = cur.get_mut(x.id as usize) {
                    *c = None;
                }
            }
            r.map(|x| json!({"op": "pq.pop", "res": it(x.as_ref())}))
        }
        "clear" => {
            cur.iter_mut().for_each(|c| *c = None);
            e.guard("clear", || q.clear()).map(|_| json!({"op": "pq.clear"}))
        }
        "drain" => {
            cur.iter_mut().for_each(|c| *c = None);
            e.guard("drain", || q.drain().map(|x| json!([x.id, x.key])).collect::<Vec<_>>()).map(|v| json!({"op": "pq.drain", "res": v}))
        }
        _ => None,
    };
    if let Some(v) = v {
        pq_ev(e, q, n, v);
    }
}

pub fn run_pq(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    if ep % 3 == 2 {
        return run_heap(e, r, ep, thorough);
    }
    let large = ep % 15 == 4;
    let n = match r.gen_range(0..4) {
        _ if large => r.gen_range(60..320),
        0 => r.gen_range(1..6),
        1 => r.gen_range(4..12),
        2 => r.gen_range(10..30),
        _ => r.gen_range(20..60),
    };
    let maxk = *[1u32, 3, 10, 1000].choose(r).unwrap();
    let mut q = IndexdMinHeap::<Item>::new(n);
    let mut cur = vec![None; n];
    pq_ev(e, &q, n, json!({"op": "pq.new", "n": n}));
    let len = r.gen_range(10..90);
    let fill = r.gen_range(0.2..0.8);
    let bulk = |e: &mut Ep, q: &mut IndexdMinHeap<Item>, cur: &mut Vec<Option<u32>>, r: &mut R| {
        let mut ids: Vec<u32> = (0..n as u32).filter(|&i| cur[i as usize].is_none()).collect();
        ids.shuffle(r);
        ids.truncate((n as f64 * r.gen_range(0.7..1.0)) as usize);
        let down = r.gen_bool(0.4);
        let xs: Vec<(u32, u32)> = ids.iter().enumerate().map(|(j, &i)| (i, if down { (n - j) as u32 } else { r.gen_range(0..=maxk) })).collect();
        for x in &xs {
            cur[x.0 as usize] = Some(x.1);
        }
        e.guard("push", || xs.iter().for_each(|&(id, key)| q.push(Item { key, id })));
        pq_ev(e, q, n, json!({"op": "pq.fill", "xs": xs}));
    };
    if large {
        bulk(e, &mut q, &mut cur, r);
    }
    for step in 0..len {
        if large && step % 30 == 29 {
            bulk(e, &mut q, &mut cur, r);
        }
        let id = r.gen_range(0..n as u32);
        let key = r.gen_range(0..=maxk);
        let c = cur[id as usize];
        let op = match c {
            None => {
                if r.gen_bool(fill) {
                    if r.gen_bool(0.8) {
                        "push"
                    } else {
                        "pushu"
                    }
                } else {
                    *["pop", "pop", "pushu"].choose(r).unwrap()
                }
            }
            Some(k) => {
                if r.gen_bool(0.3) {
                    "pop"
                } else if r.gen_bool(0.1) {
                    "pushu"
                } else if r.gen_bool(0.4) {
                    "upd"
                } else if key <= k {
                    "dec"
                } else {
                    "inc"
                }
            }
        };
        let op = if r.gen_bool(0.02) { *["clear", "drain"].choose(r).unwrap() } else { op };
        pq_op(e, &mut q, &mut cur, n, op, id, key);
        if e.dead {
            return;
        }
    }
    if r.gen_bool(0.7) {
        for _ in 0..=n.min(100) {
            pq_op(e, &mut q, &mut cur, n, "pop", 0, 0);
        }
    }
}

/// behaviours enumerated by TLC: [[op, id, key], ...]
pub fn run_pq_input(e: &mut Ep, line: &str) {
    let ops: Vec<Value> = serde_json::from_str(line).unwrap();
    let n = 3;
    let mut q = IndexdMinHeap::<Item>::new(n);
    let mut cur = vec![None; n];
    pq_ev(e, &q, n, json!({"op": "pq.new", "n": n}));
    for o in ops {
        pq_op(e, &mut q, &mut cur, n, o[0].as_str().unwrap(), o[1].as_u64().unwrap() as u32, o[2].as_u64().unwrap() as u32);
    }
}

fn run_heap(e: &mut Ep, r: &mut R, _ep: u64, _t: bool) {
    let mut h: Heap<Item> = Heap::new();
    let kv = |x: &Item| json!([x.key, x.id]);
    let obs = |e: &mut Ep, h: &Heap<Item>, mut v: Value| {
        if let Some((p, k)) = e.guard("heap.observe", || (h.popped().iter().map(kv).collect::<Vec<_>>(), h.peek().map(kv).unwrap_or(json!([])))) {
            let m = v.as_object_mut().unwrap();
            m.insert("popped".into(), json!(p));
            m.insert("peek".into(), k);
            e.ev(v);
        }
    };
    obs(e, &h, json!({"op": "h.new"}));
    let maxk = *[1u32, 5, 1000].choose(r).unwrap();
    let mut tag = 0;
    let big = r.gen_bool(0.3);
    if _ep % 15 == 8 {
        let m = r.gen_range(60..260u32);
        let down = r.gen_bool(0.4);
        let xs: Vec<(u32, u32)> = (0..m).map(|i| (if down { m - i } else { r.gen_range(0..=maxk) }, i)).collect();
        tag = m;
        e.guard("heap.push", || xs.iter().for_each(|&(key, id)| h.push(Item { key, id })));
        obs(e, &h, json!({"op": "h.fill", "xs": xs}));
    }
    for _ in 0..r.gen_range(10..if big { 140 } else { 60 }) {
        match r.gen_range(0..20) {
            0..=10 => {
                let x = Item { key: r.gen_range(0..=maxk), id: tag };
                tag += 1;
                let v = json!({"op": "h.push", "x": kv(&x)});
                e.guard("heap.push", || h.push(x));
                obs(e, &h, v);
            }
            11..=16 => {
                if let Some(x) = e.guard("heap.pop", || h.pop().map(kv).unwrap_or(json!([]))) {
                    obs(e, &h, json!({"op": "h.pop", "res": x}));
                }
            }
            17 | 18 => {
                let p = *[0.05, 0.3, 0.8, 1.0].choose(r).unwrap();
                let rej: Vec<u32> = (0..tag).filter(|_| r.gen_bool(p)).collect();
                e.guard("heap.retain", || h.retain(|x| !rej.contains(&x.id)));
                obs(e, &h, json!({"op": "h.retain", "reject": rej}));
            }
            _ => {
                if r.gen_bool(0.15) {
                    e.guard("heap.clear", || h.clear());
                    obs(e, &h, json!({"op": "h.clear"}));
                }
            }
        }
        if e.dead {
            return;
        }
    }
    for _ in 0..tag.min(60) {
        if let Some(x) = e.guard("heap.pop", || h.pop().map(kv).unwrap_or(json!([]))) {
            obs(e, &h, json!({"op": "h.pop", "res": x}));
        }
    }
}

/// a resettable vector behind one interface; values are small numbers, the default is D
trait Vecl {
    fn get(&self, i: usize) -> i64;
    fn touch(&mut self, i: usize) -> i64;
    fn put(&mut self, i: usize, x: i64, how: u32);
    fn reset(&mut self);
    fn len(&self) -> Option<usize>;
}
macro_rules! ts {
    ($t:ty, $enc:expr, $dec:expr) => {
        impl Vecl for TimestampedVector<$t> {
            fn get(&self, i: usize) -> i64 {
                let a: i64 = $dec(&self[i]);
                let b: i64 = $dec(unsafe { self.get_unchecked(i) });
                if a == b {
                    a
                } else {
                    -7
                }
            }
            fn touch(&mut self, i: usize) -> i64 {
                if i % 2 == 0 {
                    $dec(&mut self[i])
                } else {
                    $dec(unsafe { self.get_unchecked_mut(i) })
                }
            }
            fn put(&mut self, i: usize, x: i64, how: u32) {
                match how {
                    0 => self.set(i, $enc(x)),
                    1 => self[i] = $enc(x),
                    _ => unsafe { *self.get_unchecked_mut(i) = $enc(x) },
                }
            }
            fn reset(&mut self) {
                TimestampedVector::reset(self)
            }
            fn len(&self) -> Option<usize> {
                Some(TimestampedVector::len(self))
            }
        }
    };
}
const D: i64 = 9;
ts!(u32, |x: i64| if x == D { INF } else { x as u32 }, |x: &u32| if *x == INF { D } else { *x as i64 });
ts!((u32, u32), |x: i64| if x == D { (INF, INF) } else { (x as u32, 7) }, |x: &(u32, u32)| if *x == (INF, INF) {
    D
} else if x.1 == 7 {
    x.0 as i64
} else {
    -6
});
ts!((u32, u32, u32), |x: i64| if x == D { (INF, INF, INF) } else { (x as u32, 7, 8) }, |x: &(u32, u32, u32)| if *x == (INF, INF, INF) {
    D
} else if x.1 == 7 && x.2 == 8 {
    x.0 as i64
} else {
    -6
});
ts!(bool, |x: i64| x % 2 == 0, |x: &bool| if *x { 2 } else { D });
ts!(InRangeOption<u32>, |x: i64| if x == D { InRangeOption::NONE } else { InRangeOption::some(x as u32) }, |x: &InRangeOption<u32>| x.value().map(|y| y as i64).unwrap_or(D));
// values of vectors: length; the default is the empty one, written 9
ts!(Vec<u8>, |x: i64| if x == D { vec![] } else { vec![1; x as usize + 1] }, |x: &Vec<u8>| if x.is_empty() { D } else { x.len() as i64 - 1 });

impl Vecl for AtomicDists {
    fn get(&self, i: usize) -> i64 {
        let x = AtomicDists::get(self, i);
        if x == INF {
            D
        } else {
            x as i64
        }
    }
    fn touch(&mut self, i: usize) -> i64 {
        Vecl::get(self, i)
    }
    fn put(&mut self, i: usize, x: i64, _: u32) {
        self.set(i, if x == D { INF } else { x as u32 })
    }
    fn reset(&mut self) {
        AtomicDists::reset(self)
    }
    fn len(&self) -> Option<usize> {
        Some(AtomicDists::len(self))
    }
}
impl Vecl for ClearlistVector<i64> {
    fn get(&self, i: usize) -> i64 {
        self[i]
    }
    fn touch(&mut self, i: usize) -> i64 {
        *(&mut self[i])
    }
    fn put(&mut self, i: usize, x: i64, _: u32) {
        self[i] = x
    }
    fn reset(&mut self) {
        ClearlistVector::reset(self)
    }
    fn len(&self) -> Option<usize> {
        None
    }
}

fn v_ev(e: &mut Ep, v: &dyn Vecl, n: usize, mut j: Value) {
    if let Some(a) = e.guard("vec.read", || {
        let mut a: Vec<i64> = (0..n).map(|i| v.get(i)).collect();
        if v.len().map(|l| l != n).unwrap_or(false) {
            a.push(-8);
        }
        a
    }) {
        j.as_object_mut().unwrap().insert("all".into(), json!(a));
        e.ev(j);
    }
}

fn v_hist(e: &mut Ep, r: &mut R, kind: &str, mut v: Box<dyn Vecl>, n: usize, vals: &[i64], wrap: bool) {
    v_ev(e, &*v, n, json!({"op": "v.new", "kind": kind, "n": n, "def": D}));
    let len = r.gen_range(6..40);
    let wrap_at = if wrap { r.gen_range(1..len) } else { len + 1 };
    for step in 0..len {
        if step == wrap_at {
            // land just before, on or just after the initial counter value
            let t: u64 = (1u64 << 32) - 3 + r.gen_range(0..5);
            if e.guard("reset", || (0..t).for_each(|_| v.reset())).is_some() {
                v_ev(e, &*v, n, json!({"op": "v.reset", "times": 2147483647}));
            }
            continue;
        }
        let i = r.gen_range(0..n);
        match r.gen_range(0..10) {
            0..=5 => {
                let x = *vals.choose(r).unwrap();
                let how = r.gen_range(0..3);
                if e.guard("set", || v.put(i, x, how)).is_some() {
                    v_ev(e, &*v, n, json!({"op": "v.set", "i": i, "x": x}));
                }
            }
            6 => {
                if let Some(x) = e.guard("touch", || v.touch(i)) {
                    v_ev(e, &*v, n, json!({"op": "v.touch", "i": i, "x": x}));
                }
            }
            _ => {
                let t = *[1u64, 1, 1, 2, 3, 255, 256, 257, 65535, 65536, 65537].choose(r).unwrap();
                if e.guard("reset", || (0..t).for_each(|_| v.reset())).is_some() {
                    v_ev(e, &*v, n, json!({"op": "v.reset", "times": t}));
                }
            }
        }
        if e.dead {
            return;
        }
    }
}

pub fn run_cont(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    let n = r.gen_range(1..9);
    let all: Vec<i64> = (0..6).chain([D]).collect();
    // counter wrap-around is exercised in a few episodes, spread over the shards
    let wrap = ep < 8 || (thorough && ep < 64);
    match ep % 8 {
        0 => v_hist(e, r, "weight", Box::new(TimestampedVector::<u32>::new(n)), n, &all, wrap),
        1 => v_hist(e, r, "atomic", Box::new(AtomicDists::new(n)), n, &all, wrap),
        2 => v_hist(e, r, "pair", Box::new(TimestampedVector::<(u32, u32)>::new(n)), n, &all, wrap),
        3 => {
            if r.gen_bool(0.5) {
                v_hist(e, r, "option", Box::new(TimestampedVector::<InRangeOption<u32>>::new(n)), n, &all, wrap)
            } else {
                v_hist(e, r, "triple", Box::new(TimestampedVector::<(u32, u32, u32)>::new(n)), n, &all, wrap)
            }
        }
        4 => v_hist(e, r, "bool", Box::new(TimestampedVector::<bool>::new(n)), n, &[2, D], wrap),
        5 => v_hist(e, r, "vec", Box::new(TimestampedVector::<Vec<u8>>::new(n)), n, &all, wrap),
        6 => v_hist(e, r, "clearlist", Box::new(ClearlistVector::<i64>::new(n, D)), n, &all, false),
        _ => bits(e, r),
    }
}

fn bits(e: &mut Ep, r: &mut R) {
    let n = *[0usize, 1, 63, 64, 65, 100, 128, 200, 511, 512, 513, 700].choose(r).unwrap();
    if r.gen_bool(0.5) {
        let mut b = BitVec::new(n);
        let ev = |e: &mut Ep, b: &BitVec, mut v: Value| {
            if let Some((o, c, l, em)) = e.guard("bits.read", || ((0..n).filter(|&i| b.get(i)).collect::<Vec<_>>(), b.count_ones(), b.len(), b.is_empty())) {
                let m = v.as_object_mut().unwrap();
                m.insert("ones".into(), json!(o));
                m.insert("count".into(), json!(c));
                m.insert("len".into(), json!(if em == (l == 0) { l as i64 } else { -3 }));
                m.insert("iter".into(), json!([-1]));
                e.ev(v);
            }
        };
        ev(e, &b, json!({"op": "b.new", "n": n}));
        for _ in 0..r.gen_range(5..40) {
            let i = if n > 0 { r.gen_range(0..n) } else { 0 };
            let k = r.gen_range(0..20);
            match k {
                0 => {
                    e.guard("clear", || b.clear());
                    ev(e, &b, json!({"op": "b.clear"}));
                }
                1 => {
                    e.guard("set_all", || b.set_all());
                    ev(e, &b, json!({"op": "b.setall"}));
                }
                2 if n > 0 => {
                    e.guard("unset_all_around", || b.unset_all_around(i));
                    ev(e, &b, json!({"op": "b.unsetall", "i": i, "word": 64}));
                }
                3..=6 if n > 0 => {
                    e.guard("unset", || b.unset(i));
                    ev(e, &b, json!({"op": "b.unset", "i": i}));
                }
                _ if n > 0 => {
                    e.guard("set", || b.set(i));
                    ev(e, &b, json!({"op": "b.set", "i": i}));
                }
                _ => (),
            }
        }
    } else {
        let mut b = FastClearBitVec::new(n);
        let ev = |e: &mut Ep, b: &FastClearBitVec, mut v: Value| {
            if let Some((o, it)) = e.guard("bits.read", || ((0..n).filter(|&i| b.get(i)).collect::<Vec<_>>(), b.set_bits_iter().collect::<Vec<_>>())) {
                let m = v.as_object_mut().unwrap();
                m.insert("ones".into(), json!(o));
                m.insert("count".into(), json!(-1));
                m.insert("len".into(), json!(-1));
                m.insert("iter".into(), json!(it));
                e.ev(v);
            }
        };
        ev(e, &b, json!({"op": "b.new", "n": n}));
        for _ in 0..r.gen_range(5..40) {
            let i = if n > 0 { r.gen_range(0..n) } else { 0 };
            if r.gen_bool(0.12) {
                e.guard("clear", || b.clear());
                ev(e, &b, json!({"op": "b.clear"}));
            } else if n > 0 {
                e.guard("set", || b.set(i));
                ev(e, &b, json!({"op": "b.set", "i": i}));
            }
        }
    }
}

fn bitvec(size: usize, m: &[usize]) -> BitVec {
    let mut b = BitVec::new(size);
    m.iter().for_each(|&i| b.set(i));
    b
}

fn members(r: &mut R, size: usize) -> Vec<usize> {
    let mut s = std::collections::BTreeSet::new();
    match r.gen_range(0..5) {
        0 => {
            for _ in 0..r.gen_range(0..12) {
                s.insert(r.gen_range(0..size));
            }
        }
        1 => {
            let p = r.gen_range(0.05..0.95);
            s.extend((0..size).filter(|_| r.gen_bool(p)));
        }
        2 => {
            // whole blocks empty
            let b = r.gen_range(0..5);
            s.extend((0..size).filter(|x| (x / 512 + b) % 3 == 0 && r.gen_bool(0.4)));
        }
        3 => {
            // clusters
            for _ in 0..r.gen_range(1..5) {
                let a = r.gen_range(0..size);
                s.extend(a..(a + r.gen_range(1..300)).min(size));
            }
        }
        _ => {
            s.insert(0);
            s.insert(size - 1);
            for k in 1..(size / 64) {
                for d in [-1i64, 0, 1] {
                    if r.gen_bool(0.4) {
                        s.insert(((k * 64) as i64 + d) as usize);
                    }
                }
            }
        }
    }
    s.into_iter().filter(|&x| x < size).collect()
}

pub fn run_idmap(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    match ep % 3 {
        0 => {
            let size = *[1usize, 64, 500, 512, 513, 1024, 1300, 2600].choose(r).unwrap();
            let size = if thorough && r.gen_bool(0.1) { 6000 } else { size };
            let m = members(r, size);
            e.set("members", json!(m));
            e.set("size", json!(size));
            let Some(map) = e.guard("new", || InvertableRankSelectMap::new(RankSelectMap::new(bitvec(size, &m)))) else { return };
            let mut q: Vec<usize> = (0..25).map(|_| r.gen_range(0..size + 3)).collect();
            q.extend(m.choose_multiple(r, 10).copied());
            if let Some(v) = e.guard("idmap", || {
                let at: Vec<usize> = m.iter().map(|&k| map.at(k)).collect();
                let inv: Vec<usize> = (0..map.len()).map(|x| map.inverse(x)).collect();
                let qs: Vec<Value> = q
                    .iter()
                    .map(|&k| {
                        let g = map.get(k).map(|x| x as i64).unwrap_or(-1);
                        // defined only if some member is not larger
                        let nl = if k < size && m.first().map(|&f| f <= k).unwrap_or(false) { map.at_or_next_lower(k) as i64 } else { -1 };
                        json!([k, g, nl])
                    })
                    .collect();
                json!({"op": "idmap", "len": map.len(), "empty": map.is_empty(), "at": at, "inv": inv, "q": qs})
            }) {
                e.ev(v);
            }
        }
        1 => {
            let mut o = Opt::rand(r);
            o.loops = true;
            let big = r.gen_bool(0.3);
            let mut g = gen_graph(r, 1, if big { 500 } else { 20 }, &o);
            if r.gen_bool(0.5) {
                // many nodes without outgoing arcs, also at both ends
                let keep: Vec<bool> = (0..g.n).map(|_| r.gen_bool(0.4)).collect();
                let es = (0..g.m()).filter(|&i| keep[g.tail[i] as usize]).map(|i| (g.tail[i], g.head[i], g.w[i])).collect();
                g = G::from_edges(g.n, es);
            }
            e.set("n", json!(g.n));
            e.set("fo", json!(g.fo));
            let gr = g.owned();
            if let Some(t) = e.guard("LinkIdToTailMapper", || {
                let m = LinkIdToTailMapper::new(&gr);
                (0..g.m() as u32).map(|x| m.link_id_to_tail(x)).collect::<Vec<_>>()
            }) {
                e.ev(json!({"op": "tails", "t": t}));
            }
            if let Some(t) = e.guard("link_id_to_tail", || (0..g.m() as u32).map(|x| link_id_to_tail(&g.fo, x)).collect::<Vec<_>>()) {
                e.ev(json!({"op": "tails", "t": t}));
            }
        }
        _ => {
            use conversion::here::link_id_mapper::*;
            let size = *[64usize, 600, 1300, 2600].choose(r).unwrap();
            let m = members(r, size);
            // every rank has at least one direction; local ids are a permutation
            let mut dirs: Vec<(i64, i64)> = vec![];
            let mut slots = vec![];
            for k in 0..m.len() {
                let d = r.gen_range(0..3);
                dirs.push((-1, -1));
                if d != 1 {
                    slots.push((k, 0));
                }
                if d != 0 {
                    slots.push((k, 1));
                }
            }
            slots.shuffle(r);
            for (i, &(k, d)) in slots.iter().enumerate() {
                if d == 0 {
                    dirs[k].0 = i as i64;
                } else {
                    dirs[k].1 = i as i64;
                }
            }
            e.set("members", json!(m));
            e.set("dirs", json!(dirs));
            e.set("arcs", json!(slots.len()));
            let op = |x: i64| if x < 0 { InRangeOption::NONE } else { InRangeOption::some(x as u32) };
            let table = dirs.iter().map(|&(a, b)| (op(a), op(b))).collect::<Vec<_>>();
            let Some(lm) = e.guard("LinkIdMapper", || LinkIdMapper::new(InvertableRankSelectMap::new(RankSelectMap::new(bitvec(size, &m))), table, slots.len())) else { return };
            let mut q: Vec<usize> = (0..15).map(|_| r.gen_range(0..size + 3)).collect();
            q.extend(m.choose_multiple(r, 15).copied());
            if let Some(v) = e.guard("links", || {
                let mut to = vec![];
                for &k in &q {
                    to.push(json!([k, 0, lm.here_to_local_link_id(k as u64, LinkDirection::FromRef).map(|x| x as i64).unwrap_or(-1)]));
                    to.push(json!([k, 1, lm.here_to_local_link_id(k as u64, LinkDirection::ToRef).map(|x| x as i64).unwrap_or(-1)]));
                }
                let back: Vec<Value> = (0..slots.len() as u32)
                    .map(|a| {
                        let (h, d) = lm.local_to_here_link_id(a);
                        json!([h, if d == LinkDirection::FromRef { 0 } else { 1 }])
                    })
                    .collect();
                json!({"op": "links", "to": to, "back": back})
            }) {
                e.ev(v);
            }
        }
    }
}
