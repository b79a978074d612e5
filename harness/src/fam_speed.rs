//! Link speed estimates from position fixes.
use crate::util::*;
use rand::prelude::*;
use rust_road_router::link_speed_estimates::*;
use serde_json::json;

const BASE: u64 = 1_600_000_000_000;

pub fn run(e: &mut Ep, r: &mut R, id: u64, thorough: bool) {
    for _ in 0..6 {
        let n = if id % 7 == 0 { 1 } else { r.gen_range(1..=if thorough { 7 } else { 6 }) };
        // visits of links; a link may be visited again later
        let pool = r.gen_range(2u64..9);
        let mut ids: Vec<u64> = vec![];
        let mut nofix = vec![];
        for i in 0..n {
            loop {
                let x = r.gen_range(0..pool) * 1_000_003 + 1;
                if i == 0 || ids[i - 1] != x {
                    ids.push(x);
                    break;
                }
            }
            nofix.push(i > 0 && i + 1 < n && r.gen_bool(0.45));
        }
        // the next fix identifies its link: no link since the last fix has the same id
        loop {
            let mut ok = true;
            for i in 0..n {
                let nx = (i + 1..n).find(|&j| !nofix[j]);
                if let Some(j) = nx {
                    if ids[i] == ids[j] && (j - i > 1 || nofix[i]) {
                        nofix[j - 1] = false;
                        ok = false;
                    }
                }
            }
            if ok {
                break;
            }
        }
        let mut by_id = std::collections::HashMap::new();
        let links: Vec<LinkData> = ids
            .iter()
            .map(|&x| {
                let &mut (len, sp) = by_id
                    .entry(x)
                    .or_insert((8 * r.gen_range(625u32..6250), *[30u32, 36, 40, 45, 60, 72, 90, 100, 120].choose(r).unwrap()));
                LinkData { link_id: x, length: len, speed_limit: sp }
            })
            .collect();
        // positions of fixes
        let mut pos: Vec<(usize, u32)> = vec![];
        for i in 0..n {
            if nofix[i] {
                continue;
            }
            let k = r.gen_range(1..4);
            let mut f: Vec<u32> = (0..k)
                .map(|_| match r.gen_range(0..6) {
                    0 => 0,
                    1 => 8,
                    _ => r.gen_range(0..=8),
                })
                .collect();
            f.sort();
            if i + 1 == n && n > 1 && *f.last().unwrap() == 0 {
                f.truncate(1);
            }
            // the stretch into this link has a positive length
            if let Some(&(j, q)) = pos.last() {
                if j + 1 == i && q == 8 && f[0] == 0 {
                    f = vec![r.gen_range(1..=8)];
                }
            }
            for x in f {
                pos.push((i, x));
            }
        }
        let mut t = 0u64;
        let mut fixes: Vec<(usize, u32, u64)> = vec![];
        for (q, &(i, x)) in pos.iter().enumerate() {
            if q > 0 {
                let (j, y) = pos[q - 1];
                let way: f64 = if i == j {
                    links[i].length as f64 * (x - y) as f64 / 8.0
                } else {
                    links[j].length as f64 * (8 - y) as f64 / 8.0
                        + links[j + 1..i].iter().map(|l| l.length as f64).sum::<f64>()
                        + links[i].length as f64 * x as f64 / 8.0
                };
                let v = r.gen_range(20.0..180.0);
                t += (way * 3.6 / v).ceil() as u64 + if way == 0.0 { r.gen_range(1..30_000) } else { 1 };
            }
            fixes.push((i, x, t));
        }
        let (mut links, mut fixes) = (links, fixes);
        if r.gen_bool(0.02) {
            if r.gen() {
                links.clear();
            }
            fixes.clear();
        }
        let traces: Vec<TraceData> = fixes
            .iter()
            .map(|f| TraceData { timestamp: BASE + f.2, link_id: links[f.0].link_id, traversed_in_travel_direction_fraction: f.1 as f32 / 8.0 })
            .collect();
        let out = e.guard("estimate_iter", || {
            estimate_iter(Box::new(links.iter()), Box::new(traces.iter())).map(|it| it.collect::<Vec<_>>()).ok()
        });
        if let Some(out) = out {
            let li: Vec<_> = links.iter().map(|l| json!([l.link_id, l.length, l.speed_limit])).collect();
            let fi: Vec<_> = fixes.iter().map(|f| json!([f.0 + 1, f.1, f.2])).collect();
            let milli = |x: f32| if x.is_finite() && x.abs() < 1e6 { (x as f64 * 1000.0).round() as i64 } else { -1_000_000_000 };
            let ou: Vec<_> = out
                .iter()
                .flatten()
                .map(|o| {
                    let en = (o.link_entered_timestamp as i128 - BASE as i128).max(-2_000_000_000).min(2_000_000_000) as i64;
                    json!([o.link_id, en, milli(o.velocity), milli(o.estimate_quality)])
                })
                .collect();
            e.ev(json!({"op": "est", "links": li, "fixes": fi, "out": ou, "ok": out.is_some()}));
        }
    }
}
