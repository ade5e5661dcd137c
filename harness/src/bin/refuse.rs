//! C30: requests outside of the valid range.
#[path = "../mathglue.rs"]
mod mathglue;
use auto_palette::verif_hooks::dbscan::fit as density;
use auto_palette::verif_hooks::hdbscan::core_distance_at;
use auto_palette::verif_hooks::hierarchical::{merges, HierarchicalClustering, UnionFind};
use auto_palette::verif_hooks::kmeans::counts;
use auto_palette::verif_hooks::math::Clamp;
use mathglue::*;
use proptest::prelude::*;
use rand::rngs::StdRng;
use rand::SeedableRng;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use vharness::driver::*;
use vharness::ensure;

/// By how much a request exceeds the valid range.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Beyond {
    By(u32),
    Power(u32),
    /// A power of two beyond an index that may be valid.
    Wrap(u32, u8),
    Max,
}

impl Beyond {
    /// An index of at least the limit.
    fn from(&self, limit: usize) -> usize {
        match self {
            Beyond::By(n) => limit + *n as usize,
            Beyond::Power(e) => limit.saturating_add(1usize << (e % 64)),
            Beyond::Wrap(e, index) => limit.max((1usize << (e % 64)) + *index as usize),
            Beyond::Max => usize::MAX,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Request {
    /// Cut into more clusters than points, before and after a valid cut.
    Cut { points: Vec<Lattice>, valid: usize, beyond: Beyond },
    /// Core distance of a point beyond the dataset.
    CoreDistance { points: Vec<Lattice>, samples: usize, beyond: Beyond },
    /// Count of a cluster beyond the last.
    Count { points: Vec<Lattice>, k: usize, seed: u64, beyond: Beyond },
    /// Clamp to a range with a minimum above the maximum.
    Clamp { value: u64, low: u64, high: u64, floats: [f64; 3] },
    /// Union-find without elements.
    NoElements,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    request: Request,
}

fn refused<T: Debug>(what: &str, f: impl FnOnce() -> T) -> Result<(), String> {
    match quiet(f) {
        Err(_) => Ok(()),
        Ok(v) => Err(format!("{what} is answered with {v:?} instead of being refused")),
    }
}

fn crossed<T: Clamp + Copy + PartialOrd + Debug>(name: &str, value: T, low: T, high: T) -> Result<(), String> {
    if low <= high {
        return Ok(());
    }
    refused(&format!("clamping the {name} {value:?} to {low:?}..={high:?}"), || {
        Clamp::clamp(value, low, high)
    })
}

fn request<F: Float, P: MkPoint<F>>(c: &Case) -> Check {
    let convert = |points: &[Lattice]| -> Vec<P> { points.iter().map(|p| point(p, &c.kind)).collect() };
    let metric = c.kind.metric();
    match &c.request {
        Request::Cut { points, valid, beyond } => {
            let points = convert(points);
            let n = points.len();
            let weight = |i: usize, j: usize| metric.measure(&points[i], &points[j]);
            let h = sut("hierarchical clustering", || HierarchicalClustering::fit(&points, weight))?;
            let valid = if n == 0 { 0 } else { 1 + valid % n };
            let before = sut("partition", || h.partition(valid))?;
            let k = beyond.from(n + 1);
            refused(&format!("partitioning {n} points into {k} clusters"), || h.partition(k))?;
            let after = sut("partition", || h.partition(valid))?;
            ensure!(
                before.len() == n && before == after && merges(&h).len() == n.saturating_sub(1),
                "partition into {valid} clusters is {after:?} after a refused request, but {before:?} before"
            );
            Ok(pass(true, vec![if n == 0 { "cut of nothing" } else { "cut" }]))
        }
        Request::CoreDistance { points, samples, beyond } => {
            let points = convert(points);
            let n = points.len();
            for i in 0..n {
                sut("core distance", || core_distance_at::<F, P>(&points, *samples, metric, i))?;
            }
            let index = beyond.from(n);
            refused(&format!("the core distance of point {index} of {n}"), || {
                core_distance_at::<F, P>(&points, *samples, metric, index)
            })?;
            Ok(pass(true, vec!["core distance"]))
        }
        Request::Count { points, k, seed, beyond } => {
            let points = convert(points);
            let rng = StdRng::seed_from_u64(*seed);
            let clusters = (*k).min(points.len());
            let index = beyond.from(clusters);
            let all: Vec<usize> = (0..clusters).chain([index]).collect();
            let found = sut("k-means", || counts::<F, P, StdRng>(&points, *k, rng, &all))?;
            let sum: usize = found[..clusters].iter().sum();
            ensure!(
                found[clusters] == 0 && (*k == 0 || sum == points.len()),
                "k-means counts {found:?} for the clusters {all:?} of {} points with k = {k}",
                points.len()
            );
            let radius = F::from_f64(2.0 * c.kind.scale() * if c.kind.squared { c.kind.scale() * 2.0 } else { 1.0 });
            let d = sut("density clustering", || density::<F, P>(&points, 1 + k % 4, radius, metric))?;
            let index = beyond.from(d.centroids().len());
            let count = sut("count_at", || d.count_at(index))?;
            ensure!(count == 0, "density cluster {index} of {} has {count} points", d.centroids().len());
            Ok(pass(true, vec!["count"]))
        }
        Request::Clamp { value, low, high, floats } => {
            let (v, l, h) = (*value, *low, *high);
            crossed("u8", v as u8, l as u8, h as u8)?;
            crossed("u16", v as u16, l as u16, h as u16)?;
            crossed("u32", v as u32, l as u32, h as u32)?;
            crossed("u64", v, l, h)?;
            crossed("u128", u128::from(v) << 50, u128::from(l) << 50, u128::from(h) << 50)?;
            let [v, l, h] = *floats;
            crossed("f64", v, l, h)?;
            crossed("f32", v as f32, l as f32, h as f32)?;
            Ok(pass(low > high || l > h, vec!["clamp"]))
        }
        Request::NoElements => {
            refused("a union-find of no elements", || UnionFind::new(0))?;
            Ok(pass(true, vec!["union-find"]))
        }
    }
}

struct Refuse;

impl Property for Refuse {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "Lattice point clouds with requests just and far beyond the valid range, each next to valid ones. Non-trivial: the request is outside of the valid range."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(400_000, 4_000_000)
    }
    fn strategy(&self, _tier: Tier) -> Option<BoxedStrategy<Case>> {
        let beyond = || {
            prop_oneof![
                3 => Just(Beyond::By(0)),
                3 => (0u32..40).prop_map(Beyond::By),
                2 => (0u32..64).prop_map(Beyond::Power),
                3 => (prop_oneof![Just(8u32), Just(16), Just(32), Just(63)], 0u8..12).prop_map(|(e, i)| Beyond::Wrap(e, i)),
                1 => Just(Beyond::Max),
            ]
        };
        let points = || prop_oneof![1 => Just(vec![]), 12 => cloud(0..25usize)];
        let float = || prop_oneof![-3.0f64..3.0, any::<f64>(), Just(0.0), Just(f64::INFINITY), Just(f64::NEG_INFINITY)];
        let small = || prop_oneof![0u64..300, any::<u64>()];
        let request = prop_oneof![
            6 => (points(), any::<usize>(), beyond()).prop_map(|(points, valid, beyond)| Request::Cut { points, valid, beyond }),
            4 => (points(), 1usize..30, beyond()).prop_map(|(points, samples, beyond)| Request::CoreDistance { points, samples, beyond }),
            4 => (points(), 0usize..30, any::<u64>(), beyond()).prop_map(|(points, k, seed, beyond)| Request::Count { points, k, seed, beyond }),
            4 => (small(), small(), small(), [float(), float(), float()]).prop_map(|(value, low, high, floats)| Request::Clamp { value, low, high, floats }),
        ];
        Some((kind(), request).prop_map(|(kind, request)| Case { kind, request }).boxed())
    }
    fn enumerated_len(&self, _tier: Tier) -> usize {
        1
    }
    fn enumerated(&self, _tier: Tier, _index: usize) -> Case {
        Case {
            kind: Kind { dim: 2, single: false, squared: false, shift: 0 },
            request: Request::NoElements,
        }
    }
    fn check(&self, c: &Case) -> Check {
        dispatch!(c.kind, request, c)
    }
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C30") => main_with(Refuse),
        other => panic!("unknown property {other:?}"),
    }
}
