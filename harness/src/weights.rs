//! Symmetric integer weights and minimum spanning trees of the graphs they describe.
//! Included by the binaries that use the `math` hooks.
#![allow(dead_code)]
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Graph {
    pub single: bool,
    pub n: usize,
    /// Weights are multiplied by 2 to this power.
    pub shift: i8,
    /// Added to every weight, which makes them hard to tell apart in single precision.
    #[serde(default)]
    pub offset: i64,
    /// Weights of the edges (1,0), (2,0), (2,1), (3,0) and so on. INFINITE stands for infinity.
    pub weights: Vec<i32>,
}

pub const INFINITE: i32 = i32::MAX;

impl Graph {
    pub fn weight(&self, u: usize, v: usize) -> i32 {
        let (high, low) = if u > v { (u, v) } else { (v, u) };
        assert!(high > low && high < self.n);
        self.weights[high * (high - 1) / 2 + low]
    }
    /// The weight that a number stands for.
    pub fn scaled(&self, weight: i32) -> f64 {
        self.sum(&[weight])
    }
    /// Sum of the weights that some numbers stand for.
    pub fn sum(&self, weights: &[i32]) -> f64 {
        if weights.contains(&INFINITE) {
            return f64::INFINITY;
        }
        let sum: i64 = weights.iter().map(|w| i64::from(*w) + self.offset).sum();
        sum as f64 * 2f64.powi(i32::from(self.shift))
    }
    /// Sorted weights of a minimum spanning tree, by Kruskal's algorithm.
    pub fn tree_weights(&self) -> Vec<i32> {
        let mut edges: Vec<(i32, usize, usize)> = (0..self.n)
            .flat_map(|u| (0..u).map(move |v| (u, v)))
            .map(|(u, v)| (self.weight(u, v), u, v))
            .collect();
        edges.sort_unstable();
        let mut component: Vec<usize> = (0..self.n).collect();
        let mut out = vec![];
        for (w, u, v) in edges {
            let (a, b) = (component[u], component[v]);
            if a != b {
                out.push(w);
                component.iter_mut().filter(|c| **c == b).for_each(|c| *c = a);
            }
        }
        out
    }
    /// The graphs of the first vertices only.
    pub fn smaller(&self) -> impl Iterator<Item = Graph> + '_ {
        (2..self.n.saturating_sub(1)).filter(|n| *n < 40 || n % 10 == 0).map(|n| Graph {
            n,
            weights: self.weights[..n * (n - 1) / 2].to_vec(),
            ..self.clone()
        })
    }
    /// Component of each vertex when only edges up to a weight are kept.
    pub fn components(&self, vertices: &[usize], limit: i32, strict: bool) -> Vec<usize> {
        let mut component: Vec<usize> = (0..self.n).collect();
        for (i, &u) in vertices.iter().enumerate() {
            for &v in &vertices[..i] {
                let w = self.weight(u, v);
                let (a, b) = (component[u], component[v]);
                if (w < limit || (w == limit && !strict)) && a != b {
                    component.iter_mut().filter(|c| **c == b).for_each(|c| *c = a);
                }
            }
        }
        component
    }
    pub fn labels(&self) -> Vec<&'static str> {
        let mut sorted = self.weights.clone();
        sorted.sort_unstable();
        sorted.dedup();
        vec![
            if self.single { "f32" } else { "f64" },
            match self.n {
                0 => "no vertices",
                1 => "1 vertex",
                2..=9 => "2-9 vertices",
                10..=69 => "10+ vertices",
                _ => "70+ vertices",
            },
            if sorted.len() < self.weights.len() { "ties" } else { "distinct weights" },
        ]
        .into_iter()
        .chain((self.offset != 0).then_some("close weights"))
        .chain(sorted.contains(&INFINITE).then_some("infinite weights"))
        .collect()
    }
}

/// Graphs with arbitrary weights and with squared distances of points.
pub fn graph(max: usize, negative: bool) -> BoxedStrategy<Graph> {
    let low = move |r: i32| if negative { -r } else { 0 };
    let n = move || prop_oneof![8 => 0..12usize, 3 => 0..max];
    let free = (n(), prop_oneof![Just(1i32), Just(4), Just(30), Just(5000)]).prop_flat_map(
        move |(n, r)| {
            let m = n * n.saturating_sub(1) / 2;
            (Just(n), proptest::collection::vec(low(r)..r + 1, m))
        },
    );
    let metric = n().prop_flat_map(|n| {
        proptest::collection::vec(
            prop_oneof![(-6i32..7, -6i32..7), (-60i32..61, -60i32..61)],
            n,
        )
        .prop_map(|p| {
            let w = (0..p.len())
                .flat_map(|u| (0..u).map(move |v| (u, v)))
                .map(|(u, v)| (p[u].0 - p[v].0).pow(2) + (p[u].1 - p[v].1).pow(2))
                .collect();
            (p.len(), w)
        })
    });
    (
        prop_oneof![free, metric],
        any::<bool>(),
        prop_oneof![4 => Just(0i8), 4 => Just(-8), 4 => Just(5), 1 => Just(-40), 1 => Just(40)],
        prop_oneof![3 => Just(0i64), 1 => Just(1i64 << 42)],
        // Index of a weight; all of at least that weight become infinite.
        proptest::option::weighted(0.15, any::<prop::sample::Index>()),
    )
        .prop_map(|((n, mut weights), single, shift, offset, infinite)| {
            if let (Some(i), false) = (infinite, weights.is_empty()) {
                let limit = *i.get(&weights);
                weights.iter_mut().filter(|w| **w >= limit).for_each(|w| *w = INFINITE);
            }
            Graph {
                single,
                n,
                shift,
                offset: if single { 0 } else { offset },
                weights,
            }
        })
        .boxed()
}

/// A graph of many vertices, made from a seed.
pub fn many(n: usize, index: usize) -> Graph {
    let seed = vharness::image_model::mix(31, index as u64);
    let range = [3u64, 1000, 1 << 30][index % 3];
    let m = n * (n - 1) / 2;
    let weights: Vec<i32> = if index % 2 == 0 {
        (0..m)
            .map(|i| (vharness::image_model::mix(seed, i as u64) % range) as i32)
            .collect()
    } else {
        // Distances of points on a line.
        let p: Vec<i32> = (0..n)
            .map(|i| (vharness::image_model::mix(seed, i as u64) % range) as i32)
            .collect();
        (0..n)
            .flat_map(|u| (0..u).map(move |v| (u, v)))
            .map(|(u, v)| (p[u] - p[v]).abs())
            .collect()
    };
    Graph {
        single: false,
        n,
        shift: 0,
        offset: [0, 0, 1 << 41][index / 2 % 3],
        weights,
    }
}
