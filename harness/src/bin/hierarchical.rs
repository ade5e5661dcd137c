//! C19, C20 and C24: hierarchical clustering and union-find.
#[path = "../weights.rs"]
mod weights;
use auto_palette::verif_hooks::hierarchical::{merges, HierarchicalClustering, UnionFind};
use auto_palette::verif_hooks::math::Float;
use num_traits::ToPrimitive;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use vharness::driver::*;
use vharness::ensure;
use weights::*;

fn fit<F: Float>(g: &Graph) -> Result<HierarchicalClustering<F>, String> {
    let dataset = vec![(); g.n];
    sut("fitting the hierarchy", || {
        HierarchicalClustering::<F>::fit(&dataset, |u, v| {
            if u == v || u >= g.n || v >= g.n {
                F::zero()
            } else {
                F::from_f64(g.scaled(g.weight(u, v)))
            }
        })
    })
}

// ------------------------------------------------------------------ C19

struct Cut;

fn cut<F: Float>(g: &Graph) -> Result<(), String> {
    let h = fit::<F>(g)?;
    let n = g.n;
    if n == 0 {
        let labels = sut("partition", || h.partition(0))?;
        ensure!(labels.is_empty(), "an empty dataset has labels {labels:?}");
        return Ok(());
    }
    let tree = g.tree_weights();
    let all: Vec<usize> = (0..n).collect();
    let mut coarser: Option<Vec<usize>> = None;
    let mut answers: Vec<(usize, Vec<usize>)> = vec![];
    // All of them, or some of very many.
    let step = if n > 400 { n / 7 } else { 1 };
    let cuts = (1..=n).filter(|k| step == 1 || k % step < 2 || *k < 4 || k + 2 > n);
    for k in cuts {
        let labels = sut("partition", || h.partition(k))?;
        ensure!(
            labels.len() == n,
            "{} labels for {n} points and k = {k}",
            labels.len()
        );
        let mut seen = vec![false; k];
        for &l in &labels {
            ensure!(l < k, "label {l} for k = {k}");
            seen[l] = true;
        }
        ensure!(
            seen.iter().all(|s| *s),
            "labels {labels:?} do not use all of 0..{k}"
        );
        // Links lighter than the lightest one cut keep points together.
        if k > 1 {
            let lightest_cut = tree[n - k];
            let together = g.components(&all, lightest_cut, true);
            for u in 0..n {
                for v in 0..u {
                    ensure!(
                        together[u] != together[v] || labels[u] == labels[v],
                        "k = {k}: points {u} and {v} are joined by links lighter than {lightest_cut}, but labels are {labels:?}"
                    );
                }
            }
        }
        // Every cluster holds together by links up to the heaviest one kept.
        if k < n {
            let heaviest_kept = tree[n - k - 1];
            for l in 0..k {
                let members: Vec<usize> = (0..n).filter(|&i| labels[i] == l).collect();
                let parts = g.components(&members, heaviest_kept, false);
                ensure!(
                    members.iter().all(|&i| parts[i] == parts[members[0]]),
                    "k = {k}: cluster {members:?} is not connected by links up to {heaviest_kept}"
                );
            }
        }
        if let Some(coarse) = &coarser {
            let mut of = HashMap::new();
            for i in 0..n {
                let parent = *of.entry(labels[i]).or_insert(coarse[i]);
                ensure!(
                    parent == coarse[i],
                    "labels {labels:?} for k = {k} do not refine {coarse:?}"
                );
            }
        }
        // Asking again changes nothing.
        ensure!(
            sut("partition", || h.partition(k))? == labels,
            "two partitions for k = {k} differ"
        );
        answers.push((k, labels.clone()));
        coarser = Some(labels);
    }
    // Cuts in another order give the same clusters.
    let mut x = n as u64 ^ 0x9E37_79B9;
    for _ in 0..n.min(12) {
        x = x.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
        let (k, before) = &answers[(x >> 33) as usize % answers.len()];
        let again = sut("partition", || h.partition(*k))?;
        ensure!(
            again == *before,
            "k = {k}: the labels {before:?} become {again:?} after other cuts"
        );
    }
    Ok(())
}

impl Property for Cut {
    type Case = Graph;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "Symmetric integer weights (arbitrary or metric, often tied), partitions for every k. Non-trivial: at least four points."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(1_500_000, 12_000_000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<Graph>> {
        Some(graph(tier.pick(26, 50), true))
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(24, 96)
    }
    fn enumerated(&self, tier: Tier, index: usize) -> Graph {
        if index % 12 == 3 {
            return many(tier.pick(1100, 1700) + index, index / 4);
        }
        if index % 6 == 5 {
            // More clusters than fit into a byte.
            return many(tier.pick(262, 300) + index, index / 4);
        }
        let n = [45, 70, 100, tier.pick(150, 260)][index % 4] + index;
        many(n, index / 4)
    }
    fn narrow(&self, case: &Graph) -> Graph {
        let fails = |c: &Graph| !matches!(self.check(c), Ok(Verdict::Pass { .. }));
        let mut smaller = case.smaller();
        smaller.find(fails).unwrap_or_else(|| case.clone())
    }
    fn check(&self, g: &Graph) -> Check {
        if g.single {
            cut::<f32>(g)?
        } else {
            cut::<f64>(g)?
        }
        Ok(pass(g.n >= 4, g.labels()))
    }
}

// ------------------------------------------------------------------ C24

struct Merges;

fn dendrogram<F: Float + ToPrimitive>(g: &Graph) -> Result<(), String> {
    let h = fit::<F>(g)?;
    let list = merges(&h);
    let n = g.n;
    ensure!(
        list.len() == n.saturating_sub(1),
        "{} merges of {n} points",
        list.len()
    );
    let expected = g.tree_weights();
    // Members of each node that is not merged yet.
    let mut groups: HashMap<usize, Vec<usize>> = (0..n).map(|i| (i, vec![i])).collect();
    for (i, &(left, right, weight, size)) in list.iter().enumerate() {
        let weight = weight.to_f64().unwrap();
        let (Some(a), Some(b)) = (groups.remove(&left), groups.remove(&right)) else {
            return Err(format!(
                "merge {i} joins {left} and {right}, which are not both existing groups that are not merged yet"
            ));
        };
        ensure!(
            weight == g.scaled(expected[i]),
            "merge {i} has weight {weight}, expected {}",
            g.scaled(expected[i])
        );
        // Single linkage: the weight is that of the lightest link between the two groups.
        let lightest = a
            .iter()
            .flat_map(|&u| b.iter().map(move |&v| (u, v)))
            .map(|(u, v)| g.weight(u, v))
            .min()
            .expect("groups have members");
        ensure!(
            weight == g.scaled(lightest),
            "merge {i} of {a:?} and {b:?} has weight {weight}, but their lightest link {}",
            g.scaled(lightest)
        );
        ensure!(
            size == a.len() + b.len(),
            "merge {i} of {a:?} and {b:?} has size {size}"
        );
        groups.insert(n + i, [a, b].concat());
    }
    ensure!(
        groups.len() == n.min(1),
        "{} groups are left after all merges",
        groups.len()
    );
    Ok(())
}

impl Property for Merges {
    type Case = Graph;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "Symmetric integer weights (arbitrary or metric, often tied), merges replayed against a model and Kruskal's algorithm. Non-trivial: at least four points."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(2_500_000, 25_000_000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<Graph>> {
        Some(graph(tier.pick(40, 80), true))
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(24, 96)
    }
    fn enumerated(&self, tier: Tier, index: usize) -> Graph {
        let n = [70, 150, 300, tier.pick(500, 1000)][index % 4] + index;
        many(n, index / 4)
    }
    fn narrow(&self, case: &Graph) -> Graph {
        let fails = |c: &Graph| !matches!(self.check(c), Ok(Verdict::Pass { .. }));
        let mut smaller = case.smaller();
        smaller.find(fails).unwrap_or_else(|| case.clone())
    }
    fn check(&self, g: &Graph) -> Check {
        if g.single {
            dendrogram::<f32>(g)?
        } else {
            dendrogram::<f64>(g)?
        }
        Ok(pass(g.n >= 4, g.labels()))
    }
}

// ------------------------------------------------------------------ C20

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Find(u16),
    /// Unite the roots of two elements, by their position among the roots.
    Union(u16, u16),
    /// Look up every element.
    FindAll,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Order {
    /// Each element joins the set of all earlier ones.
    Chain,
    /// The same, with the new element first.
    ChainReversed,
    /// Pairs, pairs of pairs, and so on.
    Balanced,
}

/// The sets of one step: a root and its elements `from..to`.
#[derive(Clone, Copy)]
struct Range {
    root: usize,
    from: usize,
    to: usize,
}

fn unite_many(n: usize, order: Order, every: usize) -> Check {
    let mut sets = sut("UnionFind::new", || UnionFind::new(n))?;
    let mut unions = 0;
    let mut unite = |a: Range, b: Range, swap: bool| -> Result<Range, String> {
        let merged = Range {
            root: n + unions,
            from: a.from,
            to: b.to,
        };
        let (x, y) = if swap { (b.root, a.root) } else { (a.root, b.root) };
        let size = sut("union", || sets.union(x, y))?;
        ensure!(
            size == merged.to - merged.from,
            "the union of sets of {} and {} elements has size {size}",
            a.to - a.from,
            b.to - b.from
        );
        unions += 1;
        if unions % every == 0 {
            for x in [a.from, a.to - 1, b.from, b.to - 1] {
                let found = sut("find", || sets.find(x))?;
                ensure!(
                    found == merged.root,
                    "the root of {x} is {found}, expected {}",
                    merged.root
                );
            }
        }
        Ok(merged)
    };
    let mut level: Vec<Range> = (0..n)
        .map(|i| Range {
            root: i,
            from: i,
            to: i + 1,
        })
        .collect();
    let last = if order == Order::Balanced {
        while level.len() > 1 {
            let mut next = vec![];
            for pair in level.chunks(2) {
                next.push(match pair {
                    [a, b] => unite(*a, *b, false)?,
                    _ => pair[0],
                });
            }
            level = next;
        }
        level[0]
    } else {
        let mut all = level[0];
        for x in &level[1..] {
            all = unite(all, *x, order == Order::ChainReversed)?;
        }
        all
    };
    for x in (0..n).step_by(n / 500 + 1).chain([n - 1]) {
        let found = sut("find", || sets.find(x))?;
        ensure!(
            found == last.root,
            "in the end the root of {x} is {found}, expected {}",
            last.root
        );
    }
    Ok(pass(n > 2, vec!["many elements"]))
}

/// Sets are small histories, or many elements united in a regular order.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum SetCase {
    History(History),
    Many {
        n: usize,
        order: Order,
        /// Look up elements after every so many unions.
        every: usize,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    n: usize,
    ops: Vec<Op>,
}

struct Sets;

impl Property for Sets {
    type Case = SetCase;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "Sequences of lookups and unions of roots against a model that relabels every element, and up to 140,000 elements united as a chain or a balanced tree. Non-trivial: at least two unions and a lookup after them."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(3_000_000, 30_000_000)
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(9, 36)
    }
    fn enumerated(&self, _tier: Tier, i: usize) -> SetCase {
        SetCase::Many {
            n: [70_001, 140_000, 65_537, 300, 1_000_000][(i / 3) % 5],
            order: [Order::Chain, Order::ChainReversed, Order::Balanced][i % 3],
            every: [1000, 97, 100_000][(i / 15) % 3],
        }
    }
    fn strategy(&self, _tier: Tier) -> Option<BoxedStrategy<SetCase>> {
        let op = prop_oneof![
            5 => any::<u16>().prop_map(Op::Find),
            5 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Op::Union(a, b)),
            1 => Just(Op::FindAll),
        ];
        Some(
            (
                prop_oneof![4 => 1usize..14, 1 => 1usize..60],
                prop_oneof![3 => proptest::collection::vec(op.clone(), 0..30), 1 => proptest::collection::vec(op, 30..160)],
            )
                .prop_map(|(n, ops)| SetCase::History(History { n, ops }))
                .boxed(),
        )
    }
    fn check(&self, c: &SetCase) -> Check {
        let c = match c {
            SetCase::History(h) => h,
            SetCase::Many { n, order, every } => return unite_many(*n, *order, *every),
        };
        let n = c.n;
        let mut sets = sut("UnionFind::new", || UnionFind::new(n))?;
        // Root of each label in use: elements and merged sets.
        let mut root: Vec<usize> = (0..n).collect();
        let mut unions = 0;
        let mut lookups = 0;
        let find = |sets: &mut UnionFind, root: &[usize], x: usize| -> Result<(), String> {
            let found = sut("find", || sets.find(x))?;
            ensure!(
                found == root[x],
                "the root of {x} is {found}, expected {} after {} unions",
                root[x],
                root.len() - n
            );
            Ok(())
        };
        for op in &c.ops {
            match op {
                Op::Find(x) => {
                    let x = *x as usize % root.len();
                    find(&mut sets, &root, x)?;
                    lookups += usize::from(unions >= 2);
                }
                Op::FindAll => {
                    for x in 0..n {
                        find(&mut sets, &root, x)?;
                    }
                    lookups += usize::from(unions >= 2);
                }
                Op::Union(a, b) => {
                    let mut roots = root.clone();
                    roots.sort_unstable();
                    roots.dedup();
                    if roots.len() < 2 {
                        continue;
                    }
                    let i = *a as usize % roots.len();
                    let mut j = *b as usize % (roots.len() - 1);
                    j += usize::from(j >= i);
                    let (x, y) = (roots[i], roots[j]);
                    let size = sut("union", || sets.union(x, y))?;
                    let label = root.len();
                    root.push(label);
                    for r in root.iter_mut() {
                        if *r == x || *r == y {
                            *r = label;
                        }
                    }
                    let expected = root[..n].iter().filter(|r| **r == label).count();
                    ensure!(
                        size == expected,
                        "the union of {x} and {y} has size {size}, expected {expected}"
                    );
                    unions += 1;
                }
            }
        }
        for x in 0..root.len() {
            let found = sut("find", || sets.find(x))?;
            ensure!(
                found == root[x],
                "in the end the root of {x} is {found}, expected {}",
                root[x]
            );
        }
        let label = match unions {
            0 => "no unions",
            1..=4 => "1-4 unions",
            _ => "5+ unions",
        };
        let mut labels = vec![label];
        if unions == n - 1 {
            labels.push("everything united");
        }
        Ok(pass(unions >= 2 && lookups > 0, labels))
    }
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C19") => main_with(Cut),
        Some("C20") => main_with(Sets),
        Some("C24") => main_with(Merges),
        other => panic!("unknown property {other:?}"),
    }
}
