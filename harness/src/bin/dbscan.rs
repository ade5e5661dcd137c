//! C13 and C14: density clustering.
#[path = "../mathglue.rs"]
mod mathglue;
use auto_palette::verif_hooks::dbscan::fit;
use mathglue::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::driver::*;
use vharness::ensure;
use vharness::matching::unmatched;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    points: Vec<Lattice>,
    min_points: usize,
    /// Radius in lattice units; squared lattice units for the squared metric.
    radius: i32,
    /// Seed of the order in which the dataset is presented a second time.
    order: u64,
    /// More points, made from a seed.
    #[serde(default)]
    seeded: Option<Seeded>,
}

/// The radius that means infinity.
const INFINITE: i32 = i32::MAX;

impl Case {
    /// The case with all of its points in the list.
    fn complete(&self) -> Case {
        let mut c = self.clone();
        if let Some(s) = c.seeded.take() {
            c.points.extend(s.points());
        }
        c
    }
    /// Thousands of points: large clusters, many clusters, or many outliers.
    fn large(tier: Tier, index: usize) -> Case {
        let seed = vharness::image_model::mix(7, index as u64);
        let r = |k: u64, m: u64| (vharness::image_model::mix(seed, k) % m) as usize;
        if index % 32 == 9 {
            return Case::crowd(seed);
        }
        let n = tier.pick([1500, 3000, 5000], [3000, 6000, 12_000])[index % 3];
        let squared = r(2, 2) == 0;
        let dim = [2, 2, 3, 5][r(0, 4)];
        // About this many neighbors.
        let dense = [0.3, 1.0, 3.0, 6.0, 60.0, 280.0][r(1, 6)];
        let range = [60, 120, 190][r(3, 3)];
        let side = 2.0 * f64::from(range) + 1.0;
        let unit_ball = [3.14, 4.19, 5.26][dim as usize / 2 - usize::from(dim == 2)];
        let radius = side * (dense / n as f64 / unit_ball).powf(1.0 / f64::from(dim));
        Case {
            kind: Kind {
                dim,
                single: r(4, 2) == 0 && n <= 5000,
                squared,
                shift: 0,
            },
            points: vec![],
            min_points: if dense > 100.0 { 260 } else { [1, 2, 4, 12][r(5, 4)] },
            radius: if squared { radius * radius } else { radius }.round() as i32,
            order: seed,
            seeded: Some(Seeded {
                n,
                range,
                copies: [1, 1, 1, 30][r(6, 4)],
                seed,
            }),
        }
    }
    /// Thousands of points at one place and a few around.
    fn crowd(seed: u64) -> Case {
        let r = |k: u64, m: u64| (vharness::image_model::mix(seed, k) % m) as usize;
        let around = |i: u64| [0, 1, 2, 3, 4].map(|k| r(100 + 5 * i + k, 13) as i16 - 6);
        let n = 4600 + r(1, 100);
        Case {
            kind: Kind {
                dim: 2,
                single: r(2, 2) == 0,
                squared: false,
                shift: 0,
            },
            points: (0..30).map(around).collect(),
            min_points: 2 + r(3, 3),
            radius: 3 + r(4, 3) as i32,
            order: seed,
            seeded: Some(Seeded {
                n,
                range: 3,
                copies: n,
                seed,
            }),
        }
    }
    fn smaller(&self) -> Vec<Case> {
        let with = |s: Seeded| Case {
            seeded: Some(s),
            ..self.clone()
        };
        self.seeded.iter().flat_map(|s| s.smaller().collect::<Vec<_>>()).map(with).collect()
    }
    fn limit(&self) -> i64 {
        let r = i64::from(self.radius);
        if self.radius < 0 {
            -1
        } else if self.radius == INFINITE {
            i64::MAX
        } else if self.kind.squared {
            r
        } else {
            r * r
        }
    }
    fn epsilon(&self) -> f64 {
        if self.radius == INFINITE {
            return f64::INFINITY;
        }
        let s = self.kind.scale();
        f64::from(self.radius) * s * if self.kind.squared { s } else { 1.0 }
    }
    /// The points in another order.
    fn reordered(&self) -> Case {
        let mut c = self.clone();
        let mut x = self.order | 1;
        for i in (1..c.points.len()).rev() {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            c.points.swap(i, (x % (i as u64 + 1)) as usize);
        }
        c
    }
}

fn strategy(tier: Tier) -> BoxedStrategy<Case> {
    let small = cloud(0..40usize);
    let large = cloud(40..tier.pick(160usize, 600));
    (
        kind(),
        prop_oneof![4 => small, 1 => large],
        prop_oneof![6 => 1usize..7, 1 => 7usize..20, 1 => Just(1usize), 1 => Just(0usize), 1 => prop_oneof![20usize..200, Just(1000), Just(usize::MAX)]],
        prop_oneof![10 => 0i32..10, 5 => 0i32..60, 2 => 0i32..2000, 1 => Just(-1i32), 1 => Just(INFINITE)],
        any::<u64>(),
        // Half of the time a point and a rank whose distance to that point is the radius.
        proptest::option::of((any::<u16>(), 1usize..9)),
        translation(),
    )
        .prop_map(|(kind, mut points, min_points, radius, order, rank, by)| {
            if !kind.single {
                points.iter_mut().for_each(|p| *p = translated(*p, &by));
            }
            let radius = match rank {
                Some((i, rank)) if !points.is_empty() && radius != INFINITE => {
                    let from = points[i as usize % points.len()];
                    let mut d: Vec<i64> = points.iter().map(|p| d2(p, &from, kind.dim)).collect();
                    d.sort_unstable();
                    let d = d[rank.min(d.len() - 1)];
                    if kind.squared { d as i32 } else { (d as f64).sqrt().ceil() as i32 }
                }
                _ => radius,
            };
            Case {
                kind,
                points,
                // A negative radius finds no neighbors, so that nothing can be a core point.
                min_points: if radius < 0 { min_points.max(1) } else { min_points },
                radius,
                order,
                seeded: None,
            }
        })
        .boxed()
}

/// What the definition of density clustering says.
struct Reference {
    /// Members each cluster certainly has: (number, sum of coordinates).
    base: Vec<(usize, [i64; 5])>,
    /// Non-core points near several clusters, with those clusters.
    shared: Vec<(usize, Vec<usize>)>,
    outliers: Vec<usize>,
    borders: usize,
}

fn reference(c: &Case) -> Reference {
    let (n, limit) = (c.points.len(), c.limit());
    let near = |i: usize, j: usize| d2(&c.points[i], &c.points[j], c.kind.dim) <= limit;
    let core: Vec<bool> = (0..n)
        .map(|i| (0..n).filter(|&j| near(i, j)).count() >= c.min_points)
        .collect();
    let mut cluster: Vec<Option<usize>> = vec![None; n];
    let mut clusters = 0;
    for start in 0..n {
        if !core[start] || cluster[start].is_some() {
            continue;
        }
        cluster[start] = Some(clusters);
        let mut stack = vec![start];
        while let Some(i) = stack.pop() {
            for j in 0..n {
                if core[j] && cluster[j].is_none() && near(i, j) {
                    cluster[j] = Some(clusters);
                    stack.push(j);
                }
            }
        }
        clusters += 1;
    }
    let mut r = Reference {
        base: vec![(0, [0; 5]); clusters],
        shared: vec![],
        outliers: vec![],
        borders: 0,
    };
    for i in 0..n {
        let mut options: Vec<usize> = match cluster[i] {
            Some(id) => vec![id],
            None => (0..n)
                .filter(|&j| core[j] && near(i, j))
                .map(|j| cluster[j].unwrap())
                .collect(),
        };
        options.sort_unstable();
        options.dedup();
        r.borders += usize::from(!core[i] && !options.is_empty());
        match options.len() {
            0 => r.outliers.push(i),
            1 => add(&mut r.base[options[0]], &c.points[i], c.kind.dim),
            _ => r.shared.push((i, options)),
        }
    }
    r
}

fn add(cluster: &mut (usize, [i64; 5]), p: &Lattice, dim: u8) {
    cluster.0 += 1;
    for k in 0..dim as usize {
        cluster.1[k] += i64::from(p[k]);
    }
}

/// All allowed assignments of the shared points, when there are few.
fn assignments(c: &Case, r: &Reference) -> Option<Vec<Vec<(usize, [i64; 5])>>> {
    let total = r
        .shared
        .iter()
        .try_fold(1usize, |a, s| a.checked_mul(s.1.len()).filter(|v| *v <= 2048))?;
    Some(
        (0..total)
            .map(|mut code| {
                let mut clusters = r.base.clone();
                for (i, options) in &r.shared {
                    let id = options[code % options.len()];
                    code /= options.len();
                    add(&mut clusters[id], &c.points[*i], c.kind.dim);
                }
                clusters
            })
            .collect(),
    )
}

struct Observed {
    centroids: Vec<[f64; 5]>,
    counts: Vec<usize>,
    beyond: Vec<usize>,
    outliers: Vec<usize>,
}

fn observe<F: Float, P: MkPoint<F>>(c: &Case) -> Result<(Observed, bool), String> {
    let points: Vec<P> = c.points.iter().map(|p| point(p, &c.kind)).collect();
    let run = || {
        sut("density clustering", || {
            let d = fit::<F, P>(&points, c.min_points, F::from_f64(c.epsilon()), c.kind.metric());
            let read = || -> Vec<[f64; 5]> { d
                .centroids()
                .iter()
                .map(|p| {
                    let mut out = [0.0; 5];
                    for (k, v) in p.to_vec().into_iter().enumerate() {
                        out[k] = f64_of(v) / c.kind.scale();
                    }
                    out
                })
                .collect() };
            let centroids = read();
            let m = centroids.len();
            let o = Observed {
                counts: (0..m).map(|i| d.count_at(i)).collect(),
                beyond: [m, m + 1, m + 7, usize::MAX].iter().map(|&i| d.count_at(i)).collect(),
                centroids,
                outliers: d.outliers(),
            };
            // Reading again, in another order, gives the same.
            let mut counts: Vec<usize> = (0..m).rev().map(|i| d.count_at(i)).collect();
            counts.reverse();
            let again = d.outliers() == o.outliers && counts == o.counts && read() == o.centroids;
            (o, again)
        })
    };
    let ((a, again), (b, _)) = (run()?, run()?);
    let same = again && a.centroids == b.centroids && a.counts == b.counts && a.outliers == b.outliers;
    Ok((a, same))
}

/// Coordinates up to 200 in single precision.
fn close(c: &Case, a: &[f64; 5], b: &[f64; 5]) -> bool {
    let tolerance = if c.kind.single { 1e-4 } else { 1e-9 };
    a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tolerance)
}

fn mean(cluster: &(usize, [i64; 5])) -> [f64; 5] {
    cluster.1.map(|v| v as f64 / cluster.0 as f64)
}

fn sorted(v: &[usize]) -> Vec<usize> {
    let mut v = v.to_vec();
    v.sort_unstable();
    v
}

/// Do the counts and, taken separately, the centroids agree with an assignment?
fn agrees(c: &Case, o: &Observed, a: &[(usize, [i64; 5])]) -> bool {
    let counts: Vec<usize> = a.iter().map(|g| g.0).collect();
    sorted(&counts) == sorted(&o.counts)
        && unmatched(a.len(), |i, j| close(c, &o.centroids[i], &mean(&a[j]))).is_none()
}

/// May these many points with this sum be cluster `j` with some of its shared points?
fn plausible(c: &Case, r: &Reference, j: usize, count: usize, sum: Option<&[f64; 5]>) -> bool {
    let shared: Vec<&Lattice> = r
        .shared
        .iter()
        .filter(|s| s.1.contains(&j))
        .map(|s| &c.points[s.0])
        .collect();
    let base = &r.base[j];
    if count < base.0 || count > base.0 + shared.len() {
        return false;
    }
    let Some(sum) = sum else { return true };
    let m = count - base.0;
    (0..c.kind.dim as usize).all(|k| {
        let mut v: Vec<i64> = shared.iter().map(|p| i64::from(p[k])).collect();
        v.sort_unstable();
        let low: i64 = base.1[k] + v[..m].iter().sum::<i64>();
        let high: i64 = base.1[k] + v[v.len() - m..].iter().sum::<i64>();
        sum[k] >= low as f64 - 0.5 && sum[k] <= high as f64 + 0.5
    })
}

// ------------------------------------------------------------------ C13

struct Groups;

/// Points with arbitrary coordinates. Distances are those that the metric measures.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FreeCase {
    dim: u8,
    single: bool,
    squared: bool,
    points: Vec<[f64; 5]>,
    min_points: usize,
    /// The distance between two of the points is the radius.
    pair: Option<(u16, u16)>,
    radius: f64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum AnyCase {
    Lattice(Case),
    Free(FreeCase),
}

fn free_case() -> BoxedStrategy<FreeCase> {
    let unit = || [-1.0f64..1.0, -1.0f64..1.0, -1.0f64..1.0, -1.0f64..1.0, -1.0f64..1.0];
    // Some points are close to another one.
    let point = (unit(), proptest::option::weighted(0.6, (any::<u16>(), -12i32..0)));
    (
        prop_oneof![Just(2u8), Just(3), Just(5)],
        any::<bool>(),
        any::<bool>(),
        proptest::collection::vec(point, 0..70),
        (0usize..7, proptest::option::weighted(0.7, any::<(u16, u16)>()), 0.0f64..1.0),
        (-1000.0f64..1000.0, prop_oneof![2 => Just(0.0), 1 => Just(1.0)]),
    )
        .prop_map(|(dim, single, squared, list, (min_points, pair, radius), (offset, far))| {
            let mut points: Vec<[f64; 5]> = vec![];
            for (p, to) in list {
                points.push(match to {
                    Some((i, e)) if !points.is_empty() => {
                        let from = points[i as usize % points.len()];
                        [0, 1, 2, 3, 4].map(|k| from[k] + p[k] * 2f64.powi(e))
                    }
                    _ => p.map(|v| v + offset * far),
                });
            }
            FreeCase { dim, single, squared, points, min_points, pair, radius: radius * radius }
        })
        .boxed()
}

fn free<F: Float, P: MkPoint<F>>(c: &FreeCase) -> Result<(usize, bool), String> {
    let points: Vec<P> = c.points.iter().map(|p| P::mk(&p.map(F::from_f64))).collect();
    let metric = if c.squared { DistanceMetric::SquaredEuclidean } else { DistanceMetric::Euclidean };
    let n = points.len();
    let radius = match c.pair {
        Some((i, j)) if n > 0 => metric.measure(&points[i as usize % n], &points[j as usize % n]),
        _ => F::from_f64(c.radius),
    };
    let near: Vec<Vec<usize>> = points
        .iter()
        .map(|p| (0..n).filter(|&j| metric.measure(p, &points[j]) <= radius).collect())
        .collect();
    let core: Vec<bool> = near.iter().map(|l| l.len() >= c.min_points).collect();
    let mut group: Vec<Option<usize>> = vec![None; n];
    let mut groups = 0;
    for start in 0..n {
        if core[start] && group[start].is_none() {
            group[start] = Some(groups);
            let mut stack = vec![start];
            while let Some(i) = stack.pop() {
                for &j in &near[i] {
                    if core[j] && group[j].is_none() {
                        group[j] = Some(groups);
                        stack.push(j);
                    }
                }
            }
            groups += 1;
        }
    }
    // Members for certain, and those that may also join another group.
    let (mut certain, mut more) = (vec![0usize; groups], vec![0usize; groups]);
    let (mut outliers, mut borders) = (vec![], 0);
    for i in 0..n {
        let mut of: Vec<usize> = match group[i] {
            Some(g) => vec![g],
            None => near[i].iter().filter_map(|&j| group[j]).collect(),
        };
        of.sort_unstable();
        of.dedup();
        borders += usize::from(group[i].is_none() && !of.is_empty());
        match of[..] {
            [] => outliers.push(i),
            [g] => certain[g] += 1,
            _ => of.iter().for_each(|g| more[*g] += 1),
        }
    }
    let d = sut("density clustering", || fit::<F, P>(&points, c.min_points, radius, metric))?;
    let counts: Vec<usize> = (0..d.centroids().len()).map(|i| d.count_at(i)).collect();
    let found = sorted(&d.outliers());
    ensure!(found == outliers, "radius {radius:?}: outliers {found:?}, expected {outliers:?}");
    ensure!(
        counts.len() == groups
            && counts.iter().sum::<usize>() + outliers.len() == n
            && unmatched(groups, |i, j| counts[i] >= certain[j] && counts[i] <= certain[j] + more[j]).is_none(),
        "radius {radius:?}: clusters of {counts:?} points, expected {certain:?} and up to {more:?} more"
    );
    Ok((groups, borders > 0 || !outliers.is_empty()))
}

fn groups<F: Float, P: MkPoint<F>>(c: &Case) -> Result<(), String> {
    let r = reference(c);
    let (o, _) = observe::<F, P>(c)?;
    ensure!(
        sorted(&o.outliers) == r.outliers,
        "outliers {:?}, expected {:?}",
        sorted(&o.outliers),
        r.outliers
    );
    ensure!(
        o.centroids.len() == r.base.len(),
        "{} clusters, expected {}",
        o.centroids.len(),
        r.base.len()
    );
    match assignments(c, &r) {
        Some(all) => {
            ensure!(
                all.iter().any(|a| agrees(c, &o, a)),
                "clusters with {:?} points and centroids {:?}; expected (points, coordinate sums) {:?} with the points {:?} in one of the given clusters each",
                o.counts, o.centroids, r.base, r.shared
            );
        }
        None => {
            let m = r.base.len();
            let count = unmatched(m, |i, j| plausible(c, &r, j, o.counts[i], None));
            ensure!(
                count.is_none(),
                "counts {:?}, expected {:?} and some of {} points near several clusters",
                o.counts,
                r.base.iter().map(|b| b.0).collect::<Vec<_>>(),
                r.shared.len()
            );
            let n: usize = o.counts.iter().sum();
            ensure!(
                n + o.outliers.len() == c.points.len(),
                "clusters with {n} points and {} outliers of {} points",
                o.outliers.len(),
                c.points.len()
            );
        }
    }
    Ok(())
}

fn labels(c: &Case, r: &Reference) -> Vec<&'static str> {
    let mut labels = c.kind.labels();
    if c.points.len() >= 1000 {
        labels.push("1,000+ points");
    }
    labels.push(match r.base.len() {
        0 => "no cluster",
        1 => "1 cluster",
        2..=4 => "2-4 clusters",
        _ => "5+ clusters",
    });
    if r.borders > 0 {
        labels.push("border points");
    }
    if !r.shared.is_empty() {
        labels.push("points near several clusters");
    }
    if !r.outliers.is_empty() {
        labels.push("outliers");
    }
    labels
}

impl Property for Groups {
    type Case = AnyCase;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "Lattice point clouds with exact distances, each in two orders, against a brute-force definition of density clusters; some have thousands of points; and points with arbitrary coordinates, where the radius often is the distance of two of them. Non-trivial: at least one cluster and another cluster, border point or outlier."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(600_000, 6_000_000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<AnyCase>> {
        let lattice = strategy(tier).prop_map(AnyCase::Lattice);
        Some(prop_oneof![5 => lattice, 1 => free_case().prop_map(AnyCase::Free)].boxed())
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(64, 240)
    }
    fn enumerated(&self, tier: Tier, index: usize) -> AnyCase {
        AnyCase::Lattice(Case::large(tier, index))
    }
    fn narrow(&self, case: &AnyCase) -> AnyCase {
        let AnyCase::Lattice(large) = case else {
            return case.clone();
        };
        let fails = |c: &AnyCase| !matches!(self.check(c), Ok(Verdict::Pass { .. }));
        large.smaller().into_iter().map(AnyCase::Lattice).find(fails).unwrap_or_else(|| case.clone())
    }
    fn check(&self, c: &AnyCase) -> Check {
        let c = match c {
            AnyCase::Lattice(c) => &c.complete(),
            AnyCase::Free(c) => {
                let (n, more) = dispatch!(c, free, c)?;
                return Ok(pass(n > 1 || (n == 1 && more), vec!["arbitrary coordinates"]));
            }
        };
        dispatch!(c.kind, groups, c)?;
        let other = c.reordered();
        dispatch!(other.kind, groups, &other).map_err(|e| format!("reordered: {e}"))?;
        let r = reference(c);
        let n = r.base.len();
        let interesting = n > 1 || (n == 1 && (r.borders > 0 || !r.outliers.is_empty()));
        Ok(pass(interesting, labels(c, &r)))
    }
}

// ------------------------------------------------------------------ C14

struct Pairing;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum PairingCase {
    Cloud(Case),
    Bulk(Bulk),
}

/// A chain of many points: one cluster.
fn bulk<F: Float>(b: &Bulk) -> Result<(), String> {
    let points = b.points::<F>();
    let d = sut("density clustering", || {
        let radius = F::from_f64(2.0 / f64::from(b.n));
        fit(&points, 2, radius, DistanceMetric::Euclidean)
    })?;
    let centroids = d.centroids();
    ensure!(
        centroids.len() == 1 && d.count_at(0) == points.len() && d.outliers().is_empty(),
        "{} clusters of a chain of points",
        centroids.len()
    );
    b.accurate(&centroids[0])?;
    let middle = (f64::from(b.n) - 1.0) / 2.0 / f64::from(b.n);
    ensure!(
        (f64_of(centroids[0].1) - middle).abs() <= 2e-5,
        "centroid {:?} of a chain around {middle}",
        centroids[0]
    );
    Ok(())
}


fn pairing<F: Float, P: MkPoint<F>>(c: &Case) -> Result<(), String> {
    let (o, same) = observe::<F, P>(c)?;
    ensure!(same, "fitting the same dataset twice, or reading one result twice, reports different results");
    let n: usize = o.counts.iter().sum();
    ensure!(
        n + o.outliers.len() == c.points.len(),
        "counts {:?} and {} outliers of {} points",
        o.counts,
        o.outliers.len(),
        c.points.len()
    );
    ensure!(
        o.beyond.iter().all(|v| *v == 0),
        "counts {:?} beyond the last of {} clusters",
        o.beyond,
        o.centroids.len()
    );
    // The mean of that many lattice points, times their number, is a lattice point.
    let mut total = [0i64; 5];
    for (i, centroid) in o.centroids.iter().enumerate() {
        ensure!(o.counts[i] > 0, "cluster {i} has no members");
        for k in 0..c.kind.dim as usize {
            let sum = centroid[k] * o.counts[i] as f64;
            let many = o.counts[i] as f64 / 1000.0;
            let tolerance = if c.kind.single { 0.02 + 0.04 * many } else { 1e-6 + 1e-6 * many };
            ensure!(
                (sum - sum.round()).abs() <= tolerance,
                "centroid {centroid:?} cannot be the mean of {} lattice points",
                o.counts[i]
            );
            total[k] += sum.round() as i64;
        }
    }
    let mut expected = [0i64; 5];
    for (i, p) in c.points.iter().enumerate() {
        if !o.outliers.contains(&i) {
            for k in 0..c.kind.dim as usize {
                expected[k] += i64::from(p[k]);
            }
        }
    }
    ensure!(
        total == expected,
        "centroids {:?} times counts {:?} sum up to {total:?}, but the points that are no outliers to {expected:?}",
        o.centroids,
        o.counts
    );
    // When the groups are the right ones, centroids and counts must agree on which is which.
    let r = reference(c);
    if o.centroids.len() != r.base.len() || sorted(&o.outliers) != r.outliers {
        return Ok(());
    }
    let paired = |i: usize, g: &(usize, [i64; 5])| {
        o.counts[i] == g.0 && close(c, &o.centroids[i], &mean(g))
    };
    let m = r.base.len();
    if let Some(all) = assignments(c, &r) {
        let right: Vec<_> = all.iter().filter(|a| agrees(c, &o, a)).collect();
        ensure!(
            right.is_empty()
                || right
                    .iter()
                    .any(|a| unmatched(m, |i, j| paired(i, &a[j])).is_none()),
            "centroids {:?} do not belong to the counts {:?}; the clusters have (points, coordinate sums) {:?} with the points {:?} in one of the given clusters each",
            o.centroids, o.counts, r.base, r.shared
        );
    } else if unmatched(m, |i, j| plausible(c, &r, j, o.counts[i], None)).is_none() {
        let sums: Vec<[f64; 5]> = (0..m)
            .map(|i| o.centroids[i].map(|v| v * o.counts[i] as f64))
            .collect();
        let wrong = unmatched(m, |i, j| plausible(c, &r, j, o.counts[i], Some(&sums[i])));
        ensure!(
            wrong.is_none(),
            "centroids {:?} do not belong to the counts {:?} of the clusters {:?}",
            o.centroids,
            o.counts,
            r.base
        );
    }
    Ok(())
}

impl Property for Pairing {
    type Case = PairingCase;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "Lattice point clouds with exact distances: every centroid times its count is a sum of lattice points, and the pairs match the brute-force clusters. Some clouds have thousands of points, some chains 60,000 and more. Non-trivial: clusters of different size."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(600_000, 6_000_000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<PairingCase>> {
        Some(strategy(tier).prop_map(PairingCase::Cloud).boxed())
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(8, 26) + tier.pick(64, 240)
    }
    fn enumerated(&self, tier: Tier, index: usize) -> PairingCase {
        match index.checked_sub(tier.pick(8, 26)) {
            None => PairingCase::Bulk(Bulk::examples(index)),
            Some(index) => PairingCase::Cloud(Case::large(tier, index)),
        }
    }
    fn narrow(&self, case: &PairingCase) -> PairingCase {
        let PairingCase::Cloud(large) = case else {
            return case.clone();
        };
        let fails = |c: &PairingCase| !matches!(self.check(c), Ok(Verdict::Pass { .. }));
        let mut smaller = large.smaller().into_iter().map(PairingCase::Cloud);
        smaller.find(fails).unwrap_or_else(|| case.clone())
    }
    fn check(&self, c: &PairingCase) -> Check {
        let c = match c {
            PairingCase::Cloud(c) => &c.complete(),
            PairingCase::Bulk(b) => {
                if b.single {
                    bulk::<f32>(b)?;
                } else {
                    bulk::<f64>(b)?;
                }
                return Ok(pass(true, vec!["chain of many points"]));
            }
        };
        dispatch!(c.kind, pairing, c)?;
        let r = reference(c);
        let different = r.base.iter().any(|b| b.0 != r.base[0].0);
        Ok(pass(different, labels(c, &r)))
    }
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C13") => main_with(Groups),
        Some("C14") => main_with(Pairing),
        other => panic!("unknown property {other:?}"),
    }
}
