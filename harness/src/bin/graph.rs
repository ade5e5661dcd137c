//! C18: minimum spanning trees.
#[path = "../weights.rs"]
mod weights;
use auto_palette::verif_hooks::graph::{Edge, MinimumSpanningTree, SpanningTree, WeightedEdge};
use auto_palette::verif_hooks::math::Float;
use num_traits::ToPrimitive;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::BinaryHeap;
use vharness::driver::*;
use vharness::ensure;
use weights::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    graph: Graph,
    /// Edges to compare.
    edges: Vec<(u8, u8, i32)>,
}

struct Tree;

fn tree<F: Float + ToPrimitive>(g: &Graph) -> Result<(), String> {
    let vertices = vec![(); g.n];
    let n_calls = std::cell::Cell::new(Ok(()));
    let (weight, edges) = sut("building the spanning tree", || {
        let t = MinimumSpanningTree::<F>::build(&vertices, |u, v| {
            if u == v || u >= g.n || v >= g.n {
                n_calls.set(Err((u, v)));
                return F::zero();
            }
            F::from_f64(g.scaled(g.weight(u, v)))
        });
        let edges: Vec<(usize, usize, f64)> = t
            .edges()
            .iter()
            .map(|e| (e.u(), e.v(), e.weight().to_f64().unwrap()))
            .collect();
        (t.weight().to_f64().unwrap(), edges)
    })?;
    if let Err((u, v)) = n_calls.get() {
        ensure!(
            u < g.n && v < g.n,
            "asks for the weight between {u} and {v} of {} vertices",
            g.n
        );
    }
    ensure!(
        edges.len() == g.n.saturating_sub(1),
        "{} edges for {} vertices: {edges:?}",
        edges.len(),
        g.n
    );
    let mut component: Vec<usize> = (0..g.n).collect();
    let mut used = vec![];
    for &(u, v, w) in &edges {
        ensure!(
            u < g.n && v < g.n && u != v,
            "edge between {u} and {v} of {} vertices",
            g.n
        );
        let expected = g.weight(u, v);
        ensure!(
            w == g.scaled(expected),
            "edge between {u} and {v} has weight {w}, expected {}",
            g.scaled(expected)
        );
        used.push(expected);
        let (a, b) = (component[u], component[v]);
        ensure!(a != b, "edges {edges:?} have a cycle through {u} and {v}");
        component.iter_mut().filter(|c| **c == b).for_each(|c| *c = a);
    }
    ensure!(
        weight == g.sum(&used),
        "the tree has weight {weight}, but its edges {}",
        g.sum(&used)
    );
    // All minimum spanning trees have the same weights.
    used.sort_unstable();
    let least = g.tree_weights();
    ensure!(
        used == least,
        "the tree has weight {}, but there is one with {}",
        g.sum(&used),
        g.sum(&least)
    );
    Ok(())
}

fn order<F: Float + ToPrimitive>(list: &[(u8, u8, i32)]) -> Result<(), String> {
    let edges: Vec<WeightedEdge<F>> = list
        .iter()
        .map(|&(u, v, w)| WeightedEdge::new(u.into(), v.into(), F::from_f64(f64::from(w) / 8.0)))
        .collect();
    for (i, a) in edges.iter().enumerate() {
        ensure!(
            a.u() == usize::from(list[i].0)
                && a.v() == usize::from(list[i].1)
                && a.weight().to_f64().unwrap() == f64::from(list[i].2) / 8.0,
            "edge {a:?} does not report {:?}",
            list[i]
        );
        for (j, b) in edges.iter().enumerate() {
            let expected = list[j].2.cmp(&list[i].2);
            ensure!(
                a.cmp(b) == expected && a.partial_cmp(b) == Some(expected),
                "{a:?} compares as {:?} with {b:?}",
                a.cmp(b)
            );
            ensure!(
                (a < b) == (expected == Ordering::Less)
                    && (a > b) == (expected == Ordering::Greater)
                    && (a <= b) == (expected != Ordering::Greater)
                    && (a >= b) == (expected != Ordering::Less),
                "operators disagree on {a:?} and {b:?}"
            );
            ensure!(
                a.max(b).weight() == if list[i].2 < list[j].2 { a } else { b }.weight(),
                "wrong maximum of {a:?} and {b:?}"
            );
        }
    }
    let mut heap: BinaryHeap<WeightedEdge<F>> = edges.into_iter().collect();
    let mut weights: Vec<i32> = list.iter().map(|e| e.2).collect();
    weights.sort_unstable();
    for w in weights {
        let e = heap.pop().expect("as many edges");
        ensure!(
            e.weight().to_f64().unwrap() == f64::from(w) / 8.0,
            "a heap of {list:?} yields {e:?} before weight {w}/8"
        );
    }
    Ok(())
}

impl Property for Tree {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "Complete graphs with symmetric integer weights (arbitrary or metric, negative and tied ones included) against Kruskal's algorithm; lists of edges compared pairwise. Non-trivial: at least four vertices."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(3_000_000, 30_000_000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<Case>> {
        let edges = proptest::collection::vec((any::<u8>(), any::<u8>(), -20i32..21), 0..7);
        Some(
            (graph(tier.pick(40, 80), true), edges)
                .prop_map(|(graph, edges)| Case { graph, edges })
                .boxed(),
        )
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(24, 96)
    }
    fn enumerated(&self, tier: Tier, index: usize) -> Case {
        let n = [70, 150, 300, tier.pick(600, 1500)][index % 4] + index;
        Case {
            graph: many(n, index / 4),
            edges: vec![],
        }
    }
    fn narrow(&self, case: &Case) -> Case {
        let fails = |c: &Case| !matches!(self.check(c), Ok(Verdict::Pass { .. }));
        let smaller = case.graph.smaller().map(|graph| Case {
            graph,
            edges: vec![],
        });
        smaller.into_iter().find(|c| fails(c)).unwrap_or_else(|| case.clone())
    }
    fn check(&self, c: &Case) -> Check {
        if c.graph.single {
            tree::<f32>(&c.graph)?;
            order::<f32>(&c.edges)?;
        } else {
            tree::<f64>(&c.graph)?;
            order::<f64>(&c.edges)?;
        }
        Ok(pass(c.graph.n >= 4, c.graph.labels()))
    }
}

fn main() {
    main_with(Tree)
}
