//! C15 to C17 and C29: k-means clustering and its initialization.
#[path = "../mathglue.rs"]
mod mathglue;
use auto_palette::verif_hooks::kmeans::{fit, initialize};
use mathglue::*;
use proptest::prelude::*;
use rand::rngs::StdRng;
use rand::SeedableRng;
use serde::{Deserialize, Serialize};
use vharness::driver::*;
use vharness::ensure;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    points: Vec<Lattice>,
    /// usize::MAX is -1.
    k: i64,
    plus_plus: bool,
    seed: u64,
    max_iterations: usize,
    /// Tolerance in lattice units of the metric.
    tolerance: f64,
    /// More points, after those of the list.
    #[serde(default)]
    seeded: Option<Seeded>,
}

impl Case {
    fn k(&self) -> usize {
        self.k as usize
    }
    /// The case with all of its points in the list.
    fn complete(&self) -> Case {
        let mut c = self.clone();
        if let Some(s) = c.seeded.take() {
            c.points.extend(s.points());
        }
        c
    }
    /// Thousands of points and up to hundreds of clusters.
    fn large(tier: Tier, index: usize) -> Case {
        let seed = vharness::image_model::mix(17, index as u64);
        let r = |k: u64, m: u64| (vharness::image_model::mix(seed, k) % m) as usize;
        let n = tier.pick([600, 1500, 4000], [1000, 4000, 20_000])[index % 3];
        let k = [2i64, 5, 17, 70, 280][r(1, 5)];
        Case {
            kind: Kind {
                dim: [2, 3, 5][r(0, 3)],
                single: index % 4 == 3,
                squared: r(2, 2) == 0,
                shift: [0, -4, 3][r(3, 3)],
            },
            points: vec![],
            k,
            plus_plus: r(4, 2) == 0,
            seed,
            max_iterations: 1 + r(5, 6),
            tolerance: [0.0, 0.5, 5.0][r(6, 3)],
            seeded: Some(Seeded {
                n,
                range: [20, 190, 190][r(7, 3)],
                copies: [1, 1, 1, 7][r(8, 4)],
                seed,
            }),
        }
    }
    /// Points on a line, for which the algorithm of Lloyd takes long: sometimes hundreds of steps.
    fn line(index: usize) -> Case {
        let seed = vharness::image_model::mix(18, index as u64);
        let n = 5000 + 500 * (index % 4);
        let points = (0..n as u64)
            .map(|i| {
                let x = (vharness::image_model::mix(seed, i) % 16_001) as i16 - 8000;
                [x, 0, 0, 0, 0]
            })
            .collect();
        Case {
            kind: Kind {
                dim: 2,
                single: false,
                squared: index % 2 == 0,
                shift: 0,
            },
            points,
            k: 10 + (index % 5) as i64,
            plus_plus: false,
            seed,
            max_iterations: 2,
            tolerance: 1.0,
            seeded: None,
        }
    }
    fn smaller(&self) -> Vec<Case> {
        let with = |s: Seeded| Case {
            seeded: Some(s),
            ..self.clone()
        };
        self.seeded.iter().flat_map(|s| s.smaller().collect::<Vec<_>>()).map(with).collect()
    }
    fn narrowest(&self, fails: impl Fn(&Case) -> bool) -> Case {
        self.smaller().into_iter().find(fails).unwrap_or_else(|| self.clone())
    }
    fn unit(&self) -> f64 {
        let s = self.kind.scale();
        if self.kind.squared {
            s * s
        } else {
            s
        }
    }
    fn points<F: Float, P: MkPoint<F>>(&self) -> Vec<P> {
        self.points.iter().map(|p| point(p, &self.kind)).collect()
    }
    fn rng(&self) -> StdRng {
        StdRng::seed_from_u64(self.seed)
    }
    fn dim(&self) -> usize {
        self.kind.dim as usize
    }
}

fn strategy(points: BoxedStrategy<Vec<Lattice>>, k: BoxedStrategy<i64>) -> BoxedStrategy<Case> {
    (
        kind(),
        // Away from the origin half of the time.
        (points, prop_oneof![Just(0i16), Just(220), Just(-350)]),
        k,
        any::<bool>(),
        any::<u64>(),
        0usize..12,
        prop_oneof![0.0..2.0, 0.0..60.0, Just(0.0)],
    )
        .prop_map(
            |(kind, (points, offset), k, plus_plus, seed, max_iterations, tolerance)| Case {
                kind,
                points: points
                    .into_iter()
                    .map(|p| p.map(|v| v + offset))
                    .collect(),
                k,
                plus_plus,
                seed,
                max_iterations,
                tolerance,
                seeded: None,
            },
        )
        .boxed()
}

/// Centroids in lattice units, with counts.
type State = Vec<([f64; 5], usize)>;

fn lattice_units<F: Float, P: MkPoint<F>>(p: &P, kind: &Kind) -> [f64; 5] {
    let mut out = [0.0; 5];
    for (k, v) in p.to_vec().into_iter().enumerate() {
        out[k] = f64_of(v) / kind.scale();
    }
    out
}

fn run<F: Float, P: MkPoint<F>>(c: &Case, iterations: usize, tolerance: F) -> Result<State, String> {
    let points = c.points::<F, P>();
    let result = sut("k-means", || {
        fit::<F, P, StdRng>(
            &points,
            c.k(),
            c.kind.metric(),
            c.rng(),
            c.plus_plus,
            iterations,
            tolerance,
        )
    })?;
    Ok(result
        .iter()
        .map(|(p, n)| (lattice_units(p, &c.kind), *n))
        .collect())
}

fn rounding(c: &Case) -> f64 {
    // Coordinates stay below 600, those in doubles below 8000.
    if c.kind.single {
        1e-3
    } else {
        1e-9
    }
}

fn distance(a: &[f64; 5], b: &[f64; 5]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y).powi(2)).sum::<f64>().sqrt()
}

fn f64s(c: &Case, i: usize) -> [f64; 5] {
    let mut out = [0.0; 5];
    for (k, v) in out.iter_mut().enumerate().take(c.dim()) {
        *v = f64::from(c.points[i][k]);
    }
    out
}

enum Step {
    Valid,
    /// Too many points with several nearest centroids to decide.
    Undecided,
    Invalid(String),
}

/// Is `to` the result of assigning every point to its nearest centroid of `from` and taking means?
/// Clusters without members only have to stay in the bounding box.
fn step(c: &Case, from: &State, to: &State) -> Step {
    let k = from.len();
    if to.len() != k {
        return Step::Invalid(format!("{} clusters after {k}", to.len()));
    }
    let eps = rounding(c);
    let mut base = vec![(0usize, [0f64; 5]); k];
    let mut open: Vec<(usize, Vec<usize>)> = vec![];
    for i in 0..c.points.len() {
        let p = f64s(c, i);
        let d: Vec<f64> = from.iter().map(|s| distance(&p, &s.0)).collect();
        let min = d.iter().copied().fold(f64::INFINITY, f64::min);
        let options: Vec<usize> = (0..k).filter(|&j| d[j] <= min + eps).collect();
        if options.len() == 1 {
            base[options[0]].0 += 1;
            (0..5).for_each(|a| base[options[0]].1[a] += p[a]);
        } else {
            open.push((i, options));
        }
    }
    let matches = |sums: &[(usize, [f64; 5])]| -> bool {
        sums.iter().zip(to).all(|(s, t)| {
            s.0 == t.1
                && (s.0 == 0
                    || (0..c.dim()).all(|a| (s.1[a] / s.0 as f64 - t.0[a]).abs() <= eps))
        })
    };
    let total = open
        .iter()
        .try_fold(1usize, |a, o| a.checked_mul(o.1.len()).filter(|v| *v <= 512));
    let Some(total) = total else {
        let mut high: Vec<usize> = base.iter().map(|b| b.0).collect();
        for (_, options) in &open {
            options.iter().for_each(|&j| high[j] += 1);
        }
        let sum: usize = to.iter().map(|t| t.1).sum();
        return if sum != c.points.len() || (0..k).any(|j| to[j].1 < base[j].0 || to[j].1 > high[j]) {
            Step::Invalid(format!(
                "counts {:?}, expected at least {:?} and at most {high:?}",
                to.iter().map(|t| t.1).collect::<Vec<_>>(),
                base.iter().map(|b| b.0).collect::<Vec<_>>()
            ))
        } else {
            Step::Undecided
        };
    };
    let valid = (0..total).any(|mut code| {
        let mut sums = base.clone();
        for (i, options) in &open {
            let j = options[code % options.len()];
            code /= options.len();
            sums[j].0 += 1;
            let p = f64s(c, *i);
            (0..5).for_each(|a| sums[j].1[a] += p[a]);
        }
        matches(&sums)
    });
    if valid {
        Step::Valid
    } else {
        Step::Invalid(format!(
            "clusters {to:?} are no reassignment of {from:?}: expected (points, sum of coordinates) {base:?} with points {open:?} in one of the given clusters each"
        ))
    }
}

fn in_box(c: &Case, state: &State) -> Result<(), String> {
    for (i, (centroid, count)) in state.iter().enumerate() {
        for a in 0..c.dim() {
            let low = c.points.iter().map(|p| p[a]).min().unwrap();
            let high = c.points.iter().map(|p| p[a]).max().unwrap();
            let eps = rounding(c);
            ensure!(
                centroid[a] >= f64::from(low) - eps && centroid[a] <= f64::from(high) + eps,
                "centroid {centroid:?} of cluster {i} with {count} points is outside of the data's range {low}..{high} on axis {a}"
            );
        }
    }
    Ok(())
}

fn count_labels(c: &Case, state: &State, out: &mut Vec<&'static str>) {
    out.push(if c.plus_plus { "k-means++" } else { "random" });
    if state.iter().any(|s| s.1 == 0) {
        out.push("cluster without members");
    }
}

// ------------------------------------------------------------------ C15

struct Stable;

fn stable<F: Float, P: MkPoint<F>>(c: &Case) -> Check {
    if c.k() == 0 || c.k() >= c.points.len() {
        return Ok(Verdict::Discard("k is trivial"));
    }
    let mut labels = c.kind.labels();
    // Lloyd's algorithm ends after far fewer steps for these sizes.
    let end = run::<F, P>(c, 20_000, <F as num_traits::real::Real>::min_positive_value())?;
    count_labels(c, &end, &mut labels);
    if c.points.len() >= 5000 && run::<F, P>(c, 120, F::zero())? != end {
        labels.push("more than 120 iterations");
    }
    match step(c, &end, &end) {
        Step::Valid => {}
        Step::Undecided => labels.push("many ties"),
        Step::Invalid(m) => return Err(format!("not stable at the end: {m}")),
    }
    // Stopping early.
    let tolerance = F::from_f64(c.tolerance * c.unit());
    let result = run::<F, P>(c, c.max_iterations, tolerance)?;
    let mut trajectory = vec![];
    for i in 0..=c.max_iterations {
        trajectory.push(run::<F, P>(c, i, F::zero())?);
    }
    let close = |a: &State, b: &State| {
        a.len() == b.len()
            && a.iter()
                .zip(b)
                .all(|(x, y)| x.1 == y.1 && distance(&x.0, &y.0) <= rounding(c))
    };
    let mut allowed = vec![c.max_iterations];
    let mut moves = vec![];
    for i in 1..c.max_iterations {
        let moved = trajectory[i - 1]
            .iter()
            .zip(&trajectory[i])
            .map(|(x, y)| distance(&x.0, &y.0))
            .fold(0.0, f64::max);
        let moved = if c.kind.squared { moved * moved } else { moved };
        if moved < c.tolerance + rounding(c) {
            allowed.push(i);
        }
        moves.push(moved);
    }
    let stopped = (0..trajectory.len()).find(|&i| close(&trajectory[i], &result));
    ensure!(
        allowed.iter().any(|&i| close(&trajectory[i], &result)),
        "with tolerance {} and at most {} iterations the result is that of {stopped:?} iterations, after which some centroid has not settled (largest moves {moves:?}, in lattice units)",
        c.tolerance,
        c.max_iterations
    );
    if stopped.is_some_and(|s| s < c.max_iterations) {
        labels.push("stopped early");
    }
    let moving = !close(&trajectory[0], &end) && end.len() > 1;
    Ok(pass(moving, labels))
}

impl Property for Stable {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "Lattice point clouds and seeded generators. The end result must be a fixed point of Lloyd's algorithm, an early result must be an iterate after which every centroid moved by less than the tolerance. Non-trivial: several clusters that move."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(300_000, 3_000_000)
    }
    fn strategy(&self, _tier: Tier) -> Option<BoxedStrategy<Case>> {
        let k = prop_oneof![8 => 2i64..7, 1 => 1i64..30];
        let points = prop_oneof![40 => cloud(4..50usize), 1 => cloud(50..300usize)];
        Some(strategy(points.boxed(), k.boxed()))
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(40, 180)
    }
    fn enumerated(&self, tier: Tier, index: usize) -> Case {
        if index % 5 < 2 {
            return Case::line(index);
        }
        Case::large(tier, index)
    }
    fn narrow(&self, c: &Case) -> Case {
        c.narrowest(|c| self.check(c).is_err())
    }
    fn check(&self, c: &Case) -> Check {
        let c = &c.complete();
        dispatch!(c.kind, stable, c)
    }
}

// ------------------------------------------------------------------ C16

struct Partition;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum PartitionCase {
    Cloud(Case),
    Bulk { bulk: Bulk, k: usize, seed: u64 },
}

/// Means of many points must stay in their bounding box, too.
fn bulk<F: Float>(b: &Bulk, k: usize, seed: u64) -> Result<(), String> {
    let points = b.points::<F>();
    for iterations in [1, 3] {
        let rng = StdRng::seed_from_u64(seed);
        let metric = DistanceMetric::Euclidean;
        let result = sut("k-means", || {
            fit(&points, k, metric, rng, false, iterations, F::from_f64(0.0))
        })?;
        ensure!(result.len() == k, "{} clusters for k = {k}", result.len());
        let sum: usize = result.iter().map(|c| c.1).sum();
        ensure!(
            sum == points.len(),
            "counts add up to {sum} of {} points",
            points.len()
        );
        for (centroid, _) in &result {
            b.accurate(centroid)?;
            let other = f64_of(centroid.1);
            ensure!(
                (-2e-5..1.0).contains(&other),
                "centroid {centroid:?} is outside of the data"
            );
        }
    }
    Ok(())
}


fn partition<F: Float, P: MkPoint<F>>(c: &Case) -> Check {
    let n = c.points.len();
    let mut labels = c.kind.labels();
    let tolerance = F::from_f64(c.tolerance * c.unit());
    let result = run::<F, P>(c, c.max_iterations, tolerance)?;
    if c.k() == 0 || n == 0 {
        ensure!(result.is_empty(), "k = {} with {n} points gives {result:?}", c.k());
        labels.push("k = 0 or no points");
        return Ok(pass(c.k() == 0 && n > 0, labels));
    }
    if c.k() >= n {
        labels.push("k >= points");
        let mut points: Vec<[f64; 5]> = (0..n).map(|i| f64s(c, i)).collect();
        let mut centroids: Vec<[f64; 5]> = result.iter().map(|s| s.0).collect();
        let order = |a: &[f64; 5], b: &[f64; 5]| a.partial_cmp(b).expect("no NaN");
        ensure!(
            centroids.iter().flatten().all(|v| v.is_finite()),
            "centroids {centroids:?}"
        );
        points.sort_by(order);
        centroids.sort_by(order);
        ensure!(
            centroids.len() == n
                && points
                    .iter()
                    .zip(&centroids)
                    .all(|(a, b)| distance(a, b) <= rounding(c)),
            "k = {} with {n} points gives the centroids {centroids:?}, expected the points {points:?}",
            c.k()
        );
        ensure!(
            result.iter().all(|s| s.1 == 1),
            "k = {} with {n} points gives the counts {:?}",
            c.k(),
            result.iter().map(|s| s.1).collect::<Vec<_>>()
        );
        return Ok(pass(n > 1, labels));
    }
    count_labels(c, &result, &mut labels);
    // Every number of iterations up to the limit, never stopping early.
    let mut previous: Option<State> = None;
    let mut states = vec![];
    for i in 0..=c.max_iterations {
        let state = run::<F, P>(c, i, F::zero())?;
        ensure!(
            state.len() == c.k(),
            "{} clusters for k = {}",
            state.len(),
            c.k()
        );
        in_box(c, &state)?;
        let sum: usize = state.iter().map(|s| s.1).sum();
        match &previous {
            None => {
                ensure!(sum == 0, "{sum} points assigned in no iterations");
                for (centroid, _) in &state {
                    ensure!(
                        (0..n).any(|j| distance(&f64s(c, j), centroid) <= rounding(c)),
                        "without iterations there is a centroid {centroid:?} that is no data point"
                    );
                }
            }
            Some(p) => {
                ensure!(
                    sum == n,
                    "counts add up to {sum} of {n} points after {i} iterations"
                );
                match step(c, p, &state) {
                    Step::Valid => {}
                    Step::Undecided => labels.push("many ties"),
                    // Performing fewer steps is allowed.
                    Step::Invalid(_) if state == *p => {}
                    Step::Invalid(m) => return Err(format!("iteration {i}: {m}")),
                }
            }
        }
        states.push(state.clone());
        previous = Some(state);
    }
    ensure!(
        states.iter().any(|s| {
            s.len() == result.len()
                && s.iter()
                    .zip(&result)
                    .all(|(a, b)| a.1 == b.1 && distance(&a.0, &b.0) <= rounding(c))
        }),
        "with at most {} iterations and tolerance {} the result {result:?} is none of the iterates {states:?}",
        c.max_iterations,
        c.tolerance
    );
    labels.dedup();
    Ok(pass(c.k() > 1 && c.max_iterations > 0, labels))
}

impl Property for Partition {
    type Case = PartitionCase;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "Lattice point clouds (often with duplicates and away from the origin), all kinds of k and seeded generators; every iterate is checked against a reference step. Non-trivial: several clusters and at least one iteration, k of at least the number of points, or k = 0 with points."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(400_000, 4_000_000)
    }
    fn strategy(&self, _tier: Tier) -> Option<BoxedStrategy<PartitionCase>> {
        let k = prop_oneof![8 => 1i64..9, 2 => 0i64..40, 1 => Just(-1i64), 1 => Just(0i64)];
        let points = prop_oneof![60 => cloud(0..40usize), 10 => cloud(0..5usize), 1 => cloud(40..300usize)];
        Some(
            strategy(points.boxed(), k.boxed())
                .prop_map(PartitionCase::Cloud)
                .boxed(),
        )
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(40, 146)
    }
    fn enumerated(&self, tier: Tier, index: usize) -> PartitionCase {
        let bulks = tier.pick(16, 26);
        if index >= bulks {
            return PartitionCase::Cloud(Case::large(tier, index - bulks + 1000));
        }
        PartitionCase::Bulk {
            bulk: Bulk::examples(index),
            k: 1 + index % 4,
            seed: index as u64,
        }
    }
    fn narrow(&self, c: &PartitionCase) -> PartitionCase {
        match c {
            PartitionCase::Cloud(c) => PartitionCase::Cloud(
                c.narrowest(|c| self.check(&PartitionCase::Cloud(c.clone())).is_err()),
            ),
            bulk => bulk.clone(),
        }
    }
    fn check(&self, c: &PartitionCase) -> Check {
        let c = match c {
            PartitionCase::Cloud(c) => &c.complete(),
            PartitionCase::Bulk { bulk: b, k, seed } => {
                if b.single {
                    bulk::<f32>(b, *k, *seed)?;
                } else {
                    bulk::<f64>(b, *k, *seed)?;
                }
                return Ok(pass(true, vec!["many points"]));
            }
        };
        dispatch!(c.kind, partition, c)
    }
}

// ------------------------------------------------------------------ C17

struct Initial;

fn initial<F: Float, P: MkPoint<F>>(c: &Case) -> Check {
    let n = c.points.len();
    let points = c.points::<F, P>();
    let choose = |seed: u64| -> Result<Vec<[f64; 5]>, String> {
        let rng = StdRng::seed_from_u64(seed);
        let chosen = sut("initialization", || {
            initialize::<F, P, StdRng>(&points, c.k(), c.kind.metric(), rng, c.plus_plus)
        })?;
        Ok(chosen.iter().map(|p| lattice_units(p, &c.kind)).collect())
    };
    let chosen = choose(c.seed)?;
    ensure!(
        chosen == choose(c.seed)?,
        "the same generator state gives different centroids"
    );
    ensure!(
        chosen.len() == c.k().min(n),
        "{} centroids for k = {} and {n} points",
        chosen.len(),
        c.k()
    );
    // Each centroid belongs to a position of its own.
    let all: Vec<[f64; 5]> = (0..n).map(|i| f64s(c, i)).collect();
    let mut used = vec![false; n];
    for p in &chosen {
        let Some(i) = (0..n).find(|&i| !used[i] && all[i] == *p) else {
            return Err(format!(
                "centroids {chosen:?} do not belong to distinct positions of {all:?}"
            ));
        };
        used[i] = true;
    }
    let mut labels = c.kind.labels();
    labels.push(if c.plus_plus { "k-means++" } else { "random" });
    let choice = c.k() > 0 && c.k() < n;
    if c.plus_plus && choice {
        for m in 1..chosen.len() {
            let nearest = |p: &[f64; 5]| {
                chosen[..m]
                    .iter()
                    .map(|q| distance(p, q))
                    .fold(f64::INFINITY, f64::min)
            };
            let of = nearest(&chosen[m]);
            let farthest = all.iter().map(nearest).fold(0.0, f64::max);
            ensure!(
                of >= farthest - 1e-9,
                "centroid {m} of {chosen:?} has distance {of} to the previous ones, but another point has {farthest}"
            );
        }
    }
    let states = 48 * n / c.k().max(1) + 16;
    let often = match n {
        0..=8 => 8,
        9..=60 => 300,
        _ => 1,
    };
    if choice && !c.plus_plus && states < 6000 && c.seed % often == 0 {
        // A point is left out by all of these with a probability below 1e-20.
        let bits = |p: &[f64; 5]| p.map(|v| (v + 0.0).to_bits());
        let mut missing: std::collections::HashSet<[u64; 5]> = all.iter().map(bits).collect();
        for i in 0..states as u64 {
            for p in choose(c.seed.wrapping_add(i))? {
                missing.remove(&bits(&p));
            }
        }
        let missing: Vec<[f64; 5]> = missing.into_iter().map(|p| p.map(f64::from_bits)).collect();
        ensure!(
            missing.is_empty(),
            "{states} generator states never choose the points {missing:?} of {n}"
        );
        labels.push(if n > 8 { "thousands of generator states" } else { "hundreds of generator states" });
    }
    Ok(pass(choice, labels))
}

impl Property for Initial {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "Lattice point clouds, often with duplicates, and seeded generators. Non-trivial: k is neither 0 nor reaches the number of points."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(2_500_000, 20_000_000)
    }
    fn strategy(&self, _tier: Tier) -> Option<BoxedStrategy<Case>> {
        let k = prop_oneof![6 => 0i64..9, 2 => 0i64..60, 1 => Just(-1i64)];
        let points = prop_oneof![90 => cloud(0..50usize), 60 => cloud(0..9usize), 1 => cloud(50..300usize)];
        Some(strategy(points.boxed(), k.boxed()))
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(24, 120)
    }
    fn enumerated(&self, tier: Tier, index: usize) -> Case {
        Case::large(tier, index + 2000)
    }
    fn narrow(&self, c: &Case) -> Case {
        c.narrowest(|c| self.check(c).is_err())
    }
    fn check(&self, c: &Case) -> Check {
        let c = &c.complete();
        dispatch!(c.kind, initial, c)
    }
}

// ------------------------------------------------------------------ C29

struct Descent;

/// Points with arbitrary coordinates around a few centers.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DescentCase {
    dim: u8,
    single: bool,
    squared: bool,
    points: Vec<[f64; 5]>,
    k: usize,
    plus_plus: bool,
    seed: u64,
    iterations: usize,
    /// More points around as many centers, after those of the list.
    more: Option<(usize, usize, f64)>,
}

impl DescentCase {
    fn coordinates(&self) -> Vec<[f64; 5]> {
        let mut out = self.points.clone();
        if let Some((n, centers, spread)) = self.more {
            let unit = |k: u64, i: u64| {
                vharness::image_model::mix(self.seed.wrapping_add(k), i) as f64 / u64::MAX as f64 - 0.5
            };
            out.extend((0..n as u64).map(|i| {
                let center = i % centers as u64;
                [0u64, 1, 2, 3, 4].map(|k| 40.0 * unit(k, center + 1_000_000) + spread * unit(k, i))
            }));
        }
        out
    }
    fn large(tier: Tier, index: usize) -> DescentCase {
        let seed = vharness::image_model::mix(29, index as u64);
        let r = |k: u64, m: u64| (vharness::image_model::mix(seed, k) % m) as usize;
        let n = tier.pick([500, 2000, 5000], [2000, 8000, 30_000])[index % 3];
        if index < 2 {
            // Clusters of more points than 16 bits count.
            return DescentCase {
                dim: 2,
                single: index == 1,
                squared: false,
                points: vec![],
                k: 2,
                plus_plus: true,
                seed,
                iterations: 3,
                more: Some((150_000, 2, 8.0)),
            };
        }
        DescentCase {
            dim: [2, 3, 5][r(0, 3)],
            single: index % 4 == 3,
            squared: r(2, 2) == 0,
            points: vec![],
            k: [2, 6, 20, 90][r(1, 4)],
            plus_plus: r(4, 2) == 0,
            seed,
            iterations: 12,
            more: Some((n, [1, 4, 16, 64][r(5, 4)], [0.01, 3.0, 40.0][r(6, 3)])),
        }
    }
}

fn descent_case() -> BoxedStrategy<DescentCase> {
    let unit = || [-1.0f64..1.0, -1.0f64..1.0, -1.0f64..1.0, -1.0f64..1.0, -1.0f64..1.0];
    let point = (unit(), proptest::option::weighted(0.6, (any::<u16>(), -10i32..0)));
    let points = prop_oneof![
        30 => proptest::collection::vec(point.clone(), 3..40),
        3 => proptest::collection::vec(point, 40..200),
    ];
    (
        prop_oneof![Just(2u8), Just(3), Just(5)],
        (any::<bool>(), any::<bool>(), any::<bool>()),
        points,
        (prop_oneof![6 => 2usize..7, 1 => 1usize..30], any::<u64>(), 1usize..25),
        (-100.0f64..100.0, prop_oneof![2 => Just(0.0), 1 => Just(1.0)]),
        prop_oneof![4 => Just(0), 1 => -20i32..20],
    )
        .prop_map(|(dim, (single, squared, plus_plus), list, (k, seed, iterations), (offset, far), scale)| {
            let mut points: Vec<[f64; 5]> = vec![];
            for (p, to) in list {
                points.push(match to {
                    Some((i, e)) if !points.is_empty() => {
                        let from = points[i as usize % points.len()];
                        [0, 1, 2, 3, 4].map(|k| from[k] + p[k] * 2f64.powi(e))
                    }
                    _ => p.map(|v| v + offset * far),
                });
            }
            for v in points.iter_mut().flatten() {
                *v *= 2f64.powi(scale);
            }
            DescentCase { dim, single, squared, points, k, plus_plus, seed, iterations, more: None }
        })
        .boxed()
}

fn descent<F: Float, P: MkPoint<F>>(c: &DescentCase) -> Check {
    let points: Vec<P> = c.coordinates().iter().map(|p| P::mk(&p.map(F::from_f64))).collect();
    let n = points.len();
    if c.k >= n {
        return Ok(Verdict::Discard("k is trivial"));
    }
    let metric = if c.squared { DistanceMetric::SquaredEuclidean } else { DistanceMetric::Euclidean };
    let exact = |p: &P| -> Vec<f64> { p.to_vec().into_iter().map(f64_of).collect() };
    let data: Vec<Vec<f64>> = points.iter().map(exact).collect();
    let largest = data.iter().flatten().fold(0f64, |a, v| a.max(v.abs()));
    let epsilon = if c.single { f64::from(f32::EPSILON) } else { f64::EPSILON };
    // What rounding of the centroids and of the distances may add.
    let slack = |cost: f64| 64.0 * epsilon * cost + n as f64 * 5.0 * (16.0 * epsilon * largest).powi(2);
    let mut costs: Vec<f64> = vec![];
    let limits: Vec<usize> = if n > 400 {
        [0, 1, 2, 3, 5, 8, 12].into_iter().filter(|i| *i <= c.iterations).collect()
    } else {
        (0..=c.iterations).collect()
    };
    for &limit in &limits {
        let result = sut("k-means", || {
            let rng = StdRng::seed_from_u64(c.seed);
            fit::<F, P, StdRng>(&points, c.k, metric, rng, c.plus_plus, limit, F::from_f64(0.0))
        })?;
        let centroids: Vec<Vec<f64>> = result.iter().map(|(p, _)| exact(p)).collect();
        ensure!(!centroids.is_empty(), "no clusters");
        let cost: f64 = data
            .iter()
            .map(|p| {
                centroids
                    .iter()
                    .map(|q| (0..p.len()).map(|a| (p[a] - q[a]).powi(2)).sum::<f64>())
                    .fold(f64::INFINITY, f64::min)
            })
            .sum();
        if let Some(&before) = costs.last() {
            ensure!(
                cost <= before + slack(before),
                "the sum of squared distances to the nearest centroid is {cost} with at most {limit} iterations, but {before} with fewer (so far {costs:?})"
            );
        }
        costs.push(cost);
    }
    let mut labels = vec![
        if c.single { "f32" } else { "f64" },
        if c.squared { "squared" } else { "euclidean" },
        if c.plus_plus { "k-means++" } else { "random" },
        if n > 400 { "many points" } else { "few points" },
    ];
    if costs.windows(2).filter(|w| w[1] < w[0] - slack(w[0])).count() > 2 {
        labels.push("improves several times");
    }
    let last = costs[costs.len() - 1];
    Ok(pass(last < costs[0] - slack(costs[0]), labels))
}

impl Property for Descent {
    type Case = DescentCase;
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "Point clouds with arbitrary coordinates, seeded generators; the cost of the reported centroids is computed for growing iteration limits. Non-trivial: the last cost is lower than the first."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(150_000, 1_500_000)
    }
    fn strategy(&self, _tier: Tier) -> Option<BoxedStrategy<DescentCase>> {
        Some(descent_case())
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(34, 162)
    }
    fn enumerated(&self, tier: Tier, index: usize) -> DescentCase {
        DescentCase::large(tier, index)
    }
    fn narrow(&self, c: &DescentCase) -> DescentCase {
        let Some((n, centers, spread)) = c.more else {
            return c.clone();
        };
        std::iter::successors(Some(1usize), |m| Some(m * 2))
            .take_while(|m| *m < n)
            .map(|m| DescentCase { more: Some((m, centers, spread)), ..c.clone() })
            .find(|c| self.check(c).is_err())
            .unwrap_or_else(|| c.clone())
    }
    fn check(&self, c: &DescentCase) -> Check {
        dispatch!(c, descent, c)
    }
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C15") => main_with(Stable),
        Some("C16") => main_with(Partition),
        Some("C17") => main_with(Initial),
        Some("C29") => main_with(Descent),
        other => panic!("unknown property {other:?}"),
    }
}
