#![allow(dead_code, unused_imports)]
pub use rust_road_router::algo::{a_star::*, customizable_contraction_hierarchy::*, dijkstra::*, *};
pub use rust_road_router::datastr::graph::{first_out_graph::OwnedGraph, *};
pub use rust_road_router::datastr::node_order::NodeOrder;
pub const INF: u32 = INFINITY;
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self, k: u32) -> u32 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) % k as u64) as u32
    }
}
#[derive(Clone, Debug)]
pub struct G {
    pub n: usize,
    pub e: Vec<(u32, u32, u32)>,
}
impl G {
    pub fn new(n: usize, mut e: Vec<(u32, u32, u32)>) -> G {
        e.sort_by_key(|x| x.0);
        G { n, e }
    }
    pub fn rand(r: &mut Rng, n: usize, m: usize, maxw: u32) -> G {
        let mut seen = std::collections::HashSet::new();
        let mut e = vec![];
        for _ in 0..m {
            let (u, v) = (r.next(n as u32), r.next(n as u32));
            if u != v && seen.insert((u, v)) {
                e.push((u, v, 1 + r.next(maxw)));
            }
        }
        G::new(n, e)
    }
    pub fn fo(&self) -> Vec<u32> {
        let mut fo = vec![0; self.n + 1];
        for x in &self.e {
            fo[x.0 as usize + 1] += 1;
        }
        for i in 0..self.n {
            fo[i + 1] += fo[i];
        }
        fo
    }
    pub fn head(&self) -> Vec<u32> {
        self.e.iter().map(|x| x.1).collect()
    }
    pub fn w(&self) -> Vec<u32> {
        self.e.iter().map(|x| x.2).collect()
    }
    pub fn owned(&self) -> OwnedGraph {
        OwnedGraph::new(self.fo(), self.head(), self.w())
    }
    /// all-pairs distances
    pub fn dist(&self) -> Vec<Vec<u32>> {
        let mut d = vec![vec![INF; self.n]; self.n];
        for i in 0..self.n {
            d[i][i] = 0;
        }
        for &(u, v, w) in &self.e {
            let x = &mut d[u as usize][v as usize];
            *x = (*x).min(w);
        }
        for k in 0..self.n {
            for i in 0..self.n {
                for j in 0..self.n {
                    let x = (d[i][k] as u64 + d[k][j] as u64).min(INF as u64) as u32;
                    if x < d[i][j] {
                        d[i][j] = x;
                    }
                }
            }
        }
        d
    }
    pub fn path_len(&self, p: &[u32]) -> u32 {
        p.windows(2)
            .map(|x| self.e.iter().filter(|e| e.0 == x[0] && e.1 == x[1]).map(|e| e.2).min().expect("not an arc") as u32)
            .sum()
    }
}
pub fn opt(d: u32) -> Option<u32> {
    if d >= INF {
        None
    } else {
        Some(d)
    }
}
