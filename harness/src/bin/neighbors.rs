//! C11 and C12: nearest-neighbor and radius search.
#[path = "../mathglue.rs"]
mod mathglue;
use auto_palette::verif_hooks::neighbors::{kdtree, linear, Search};
use mathglue::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::driver::*;
use vharness::ensure;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Query {
    /// A point of the dataset.
    Member(u16),
    Free(Lattice),
}

/// What is asked with each query: the first and the second kind of question, or some question of
/// the other property before the first kind.
fn first(mode: u8) -> bool {
    mode != 2
}
fn second(mode: u8) -> bool {
    mode == 0 || mode == 2
}
fn before(mode: u8) -> bool {
    mode == 3
}

/// The radius that means infinity.
const INFINITE: i32 = i32::MAX;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SearchCase {
    kind: Kind,
    points: Vec<Lattice>,
    /// More points, made from a seed.
    #[serde(default)]
    seeded: Option<Seeded>,
    /// Queries with k or a lattice radius, and what is asked.
    queries: Vec<(Query, i32, u8)>,
}

impl SearchCase {
    /// The case with all of its points in the list.
    fn complete(&self) -> SearchCase {
        let mut c = self.clone();
        if let Some(s) = c.seeded.take() {
            c.points.extend(s.points());
        }
        c
    }
    /// A large dataset.
    fn large(tier: Tier, index: usize, arguments: &[i32]) -> SearchCase {
        let seed = vharness::image_model::mix(5, index as u64);
        let r = |k: u64| vharness::image_model::mix(seed, k);
        let n = tier.pick([70_000, 5_000, 20_000][index % 3], [70_000, 300_000, 30_000][index % 3]);
        let queries = (0..12)
            .map(|q| {
                let query = if q % 2 == 0 {
                    Query::Member(r(q) as u16)
                } else {
                    Query::Free([0, 1, 2, 3, 4].map(|k| (r(100 + 5 * q + k) % 400) as i16 - 200))
                };
                (query, arguments[r(1000 + q) as usize % arguments.len()], r(3000 + q) as u8 % 4)
            })
            .collect();
        SearchCase {
            kind: Kind {
                dim: [2, 3, 5][r(2000) as usize % 3],
                single: r(2001) % 2 == 0,
                squared: r(2002) % 2 == 0,
                shift: 0,
            },
            points: vec![],
            seeded: Some(Seeded {
                n,
                range: [190, 900, 20][r(2003) as usize % 3],
                copies: [1, 1, 40, n][r(2004) as usize % 4],
                seed,
            }),
            queries,
        }
    }
    fn narrower(&self) -> Vec<SearchCase> {
        let with = |s: Seeded| SearchCase {
            seeded: Some(s),
            ..self.clone()
        };
        let sizes = self.seeded.iter().flat_map(|s| s.smaller().collect::<Vec<_>>());
        let sizes: Vec<SearchCase> = sizes.map(with).collect();
        sizes
    }
    fn at(&self, query: &Query) -> Lattice {
        match query {
            Query::Member(i) if !self.points.is_empty() => {
                self.points[*i as usize % self.points.len()]
            }
            Query::Member(_) => [0; 5],
            Query::Free(c) => *c,
        }
    }
}

fn case(tier: Tier, argument: BoxedStrategy<i32>) -> BoxedStrategy<SearchCase> {
    let small = cloud(0..60usize);
    let large = cloud(60..400usize);
    let huge = cloud(400..tier.pick(2500usize, 6000));
    let r = || -190i16..191;
    let near = || -8i16..9;
    let query = prop_oneof![
        1 => any::<u16>().prop_map(Query::Member),
        1 => [r(), r(), r(), r(), r()].prop_map(Query::Free),
        1 => [near(), near(), near(), near(), near()].prop_map(Query::Free),
    ];
    (
        kind(),
        prop_oneof![500 => small, 80 => large, 1 => huge],
        proptest::collection::vec((query, argument, 0u8..4), 1..8),
        translation(),
        // The same argument for all queries, the same questions for all queries.
        (proptest::bool::weighted(0.3), proptest::bool::weighted(0.3)),
    )
        .prop_map(|(kind, points, queries, by, (equal, alike))| {
            let (_, same, what) = queries[0];
            SearchCase {
                kind,
                points: points.into_iter().map(|p| translated(p, &by)).collect(),
                seeded: None,
                queries: queries
                    .into_iter()
                    .map(|(query, argument, mode)| {
                        let argument = if equal { same } else { argument };
                        let mode = if alike { what } else { mode };
                        match query {
                            Query::Free(q) => (Query::Free(translated(q, &by)), argument, mode),
                            member => (member, argument, mode),
                        }
                    })
                    .collect(),
            }
        })
        .boxed()
}

/// Squared lattice distances to the query.
fn distances(c: &SearchCase, query: &Lattice) -> Vec<i64> {
    c.points
        .iter()
        .map(|p| d2(p, query, c.kind.dim))
        .collect()
}

fn valid_neighbors(
    name: &str,
    c: &SearchCase,
    query: &Lattice,
    d: &[i64],
    found: &[(usize, f64)],
) -> Result<(), String> {
    let mut seen = vec![false; d.len()];
    for &(index, distance) in found {
        ensure!(index < d.len(), "{name}: index {index} of {} points", d.len());
        ensure!(!seen[index], "{name}: {query:?} finds point {index} twice");
        seen[index] = true;
        let expected = c.kind.distance(d[index]);
        ensure!(
            c.kind.same(distance, expected),
            "{name}: {query:?} finds point {index} with distance {distance}, expected {expected}"
        );
    }
    Ok(())
}

/// Search with a radius that is the distance of one of the points as the metric measures it.
fn boundary<F: Float, P: MkPoint<F>>(
    name: &str,
    search: &impl Search<F, P>,
    points: &[P],
    metric: DistanceMetric,
    query: &P,
    pick: usize,
) -> Result<(), String> {
    if points.is_empty() {
        return Ok(());
    }
    let pick = pick % points.len();
    let d: Vec<F> = points.iter().map(|p| metric.measure(p, query)).collect();
    let radius = d[pick];
    let found = sut(&format!("{name} search_radius"), || search.search_radius(query, radius))?;
    let mut there = vec![false; d.len()];
    found.iter().for_each(|f| there[f.0] = true);
    for (i, v) in d.iter().enumerate() {
        ensure!(
            there[i] == (*v <= radius),
            "{name}: {query:?} with the radius {radius:?}, which is the distance of point {pick}: point {i} at {v:?} is found: {}",
            there[i]
        );
    }
    Ok(())
}

fn floats<F: Float>(v: Vec<(usize, F)>) -> Vec<(usize, f64)> {
    v.into_iter().map(|(i, d)| (i, f64_of(d))).collect()
}

// ------------------------------------------------------------------ arbitrary coordinates

/// Points and queries anywhere; distances are judged up to rounding.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FreeCase {
    dim: u8,
    single: bool,
    squared: bool,
    points: Vec<[f64; 5]>,
    /// Queries with k and a radius, and what is asked.
    queries: Vec<([f64; 5], usize, f64, u8)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum AnyCase {
    Lattice(SearchCase),
    Free(FreeCase),
}

fn free_case() -> BoxedStrategy<FreeCase> {
    let coordinate = || {
        prop_oneof![
            3 => -1.0f64..1.0,
            2 => -1000.0f64..1000.0,
            1 => (-1.0f64..1.0, -12i32..30).prop_map(|(m, e)| m * 2f64.powi(e)),
        ]
        .prop_map(|v| f64::from(v as f32))
    };
    let coordinates = move || [coordinate(), coordinate(), coordinate(), coordinate(), coordinate()];
    let unit = || {
        [-1.0f32..1.0, -1.0f32..1.0, -1.0f32..1.0, -1.0f32..1.0, -1.0f32..1.0]
            .prop_map(|p| p.map(f64::from))
    };
    let points = prop_oneof![
        2 => proptest::collection::vec(unit(), 0..70),
        1 => proptest::collection::vec(coordinates(), 0..40),
    ];
    let query = prop_oneof![
        2 => unit().prop_map(|q| (None, q)),
        1 => coordinates().prop_map(|q| (None, q)),
        1 => (any::<u16>(), unit()).prop_map(|(i, q)| (Some(i), q)),
    ];
    let radius = prop_oneof![3 => 0.0f64..2.0, 1 => 0.0f64..3000.0, 1 => (0.0f64..1.0).prop_map(|v| v * 1e-3), 1 => prop_oneof![Just(f64::INFINITY), Just(1e30)]];
    (
        prop_oneof![Just(2u8), Just(3), Just(5)],
        any::<bool>(),
        any::<bool>(),
        points,
        proptest::collection::vec((query, 0usize..20, radius, 0u8..4), 1..6),
        (proptest::bool::weighted(0.3), proptest::bool::weighted(0.3)),
    )
        .prop_map(|(dim, single, squared, points, queries, (equal, alike))| FreeCase {
            dim,
            single,
            squared,
            queries: queries
                .iter()
                .map(|((member, q), k, r, mode)| {
                    let (_, k0, r0, mode0) = &queries[0];
                    let (k, r) = if equal { (*k0, *r0) } else { (*k, *r) };
                    let mode = if alike { *mode0 } else { *mode };
                    match member {
                        Some(i) if !points.is_empty() => {
                            (points[*i as usize % points.len()], k, r, mode)
                        }
                        _ => (*q, k, r, mode),
                    }
                })
                .collect(),
            points,
        })
        .boxed()
}

impl FreeCase {
    fn metric(&self) -> DistanceMetric {
        if self.squared {
            DistanceMetric::SquaredEuclidean
        } else {
            DistanceMetric::Euclidean
        }
    }
    /// Relative rounding error of distances. Coordinates are exact in both precisions, but their
    /// differences are not.
    fn eps(&self) -> f64 {
        if self.single {
            4e-6
        } else {
            1e-14
        }
    }
    fn distances(&self, q: &[f64; 5]) -> Vec<f64> {
        self.points
            .iter()
            .map(|p| {
                let d: f64 = (0..self.dim as usize).map(|k| (p[k] - q[k]).powi(2)).sum();
                if self.squared {
                    d
                } else {
                    d.sqrt()
                }
            })
            .collect()
    }
    fn distinct(&self, d: &[f64], found: &[(usize, f64)]) -> Result<(), String> {
        let mut seen = vec![false; d.len()];
        for &(i, distance) in found {
            ensure!(i < d.len(), "index {i} of {} points", d.len());
            ensure!(!seen[i], "point {i} is found twice");
            seen[i] = true;
            ensure!(
                (distance - d[i]).abs() <= self.eps() * d[i],
                "point {i} has distance {distance}, expected {}",
                d[i]
            );
        }
        Ok(())
    }
    fn nearest<F: Float, P: MkPoint<F>>(&self, search: &impl Search<F, P>) -> Result<(), String> {
        for (query, k, radius, mode) in &self.queries {
            let q = P::mk(&query.map(F::from_f64));
            let d = self.distances(query);
            if before(*mode) {
                sut("search_radius", || search.search_radius(&q, F::from_f64(*radius)))?;
            }
            let mut answers = vec![];
            if first(*mode) {
                let found = floats(sut("search", || search.search(&q, *k))?);
                self.distinct(&d, &found).map_err(|e| format!("{query:?}: {e}"))?;
                let mut sorted = d.clone();
                sorted.sort_by(f64::total_cmp);
                sorted.truncate(*k);
                answers.push((found, sorted));
            }
            if second(*mode) {
                let one = sut("search_nearest", || search.search_nearest(&q))?;
                let one: Vec<_> = one.map(|(i, v)| (i, f64_of(v))).into_iter().collect();
                self.distinct(&d, &one).map_err(|e| format!("{query:?}: {e}"))?;
                let least: Vec<f64> = d.iter().copied().reduce(f64::min).into_iter().collect();
                answers.push((one, least));
            }
            for (found, expected) in answers {
                ensure!(
                    found.len() == expected.len()
                        && found.windows(2).all(|w| w[0].1 <= w[1].1)
                        && found
                            .iter()
                            .zip(&expected)
                            .all(|(f, e)| (f.1 - e).abs() <= self.eps() * e),
                    "{query:?} with k = {k} finds {found:?}, expected the distances {expected:?}"
                );
            }
        }
        Ok(())
    }
    fn radius<F: Float, P: MkPoint<F>>(
        &self,
        search: &impl Search<F, P>,
        points: &[P],
    ) -> Result<(), String> {
        for (query, pick, radius, mode) in &self.queries {
            let q = P::mk(&query.map(F::from_f64));
            let d = self.distances(query);
            if second(*mode) {
                boundary("radius search", search, points, self.metric(), &q, *pick)?;
            }
            if !first(*mode) {
                continue;
            }
            if before(*mode) {
                sut("search", || search.search(&q, *pick))?;
            }
            let found = floats(sut("search_radius", || {
                search.search_radius(&q, F::from_f64(*radius))
            })?);
            self.distinct(&d, &found).map_err(|e| format!("{query:?}: {e}"))?;
            for (i, v) in d.iter().enumerate() {
                let there = found.iter().any(|f| f.0 == i);
                let slack = self.eps() * (v + radius);
                ensure!(
                    if there { *v <= radius + slack } else { *v >= radius - slack },
                    "{query:?} with radius {radius}: point {i} at distance {v} is found: {there}"
                );
            }
        }
        Ok(())
    }
}

fn free<F: Float, P: MkPoint<F>>(c: &FreeCase, nearest: bool) -> Result<(), String> {
    let points: Vec<P> = c.points.iter().map(|p| P::mk(&p.map(F::from_f64))).collect();
    let metric = c.metric();
    let tree = sut("building the kd-tree", || kdtree::<F, P>(&points, &metric))?;
    let search = linear::<F, P>(&points, &metric);
    if nearest {
        c.nearest(&tree).map_err(|e| format!("kd-tree: {e}"))?;
        c.nearest(&search).map_err(|e| format!("linear search: {e}"))
    } else {
        c.radius(&tree, &points).map_err(|e| format!("kd-tree: {e}"))?;
        c.radius(&search, &points).map_err(|e| format!("linear search: {e}"))
    }
}

fn mixed(lattice: BoxedStrategy<SearchCase>) -> BoxedStrategy<AnyCase> {
    prop_oneof![
        4 => lattice.prop_map(AnyCase::Lattice),
        1 => free_case().prop_map(AnyCase::Free),
    ]
    .boxed()
}

fn check_free(c: &FreeCase, nearest: bool) -> Check {
    dispatch!(c, free, c, nearest)?;
    Ok(pass(c.points.len() > 2, vec!["arbitrary coordinates"]))
}

// ------------------------------------------------------------------ C11

struct Nearest;

fn k_nearest<F: Float, P: MkPoint<F>>(
    name: &str,
    c: &SearchCase,
    search: &impl Search<F, P>,
    query: &Lattice,
    q: &P,
    k: usize,
    (d, sorted): (&[i64], &[i64]),
) -> Result<(), String> {
    let found = floats(sut(&format!("{name} search"), || search.search(q, k))?);
    let expected = k.min(d.len());
    ensure!(
        found.len() == expected,
        "{name}: {query:?} with k = {k} finds {} of {expected} neighbors",
        found.len()
    );
    valid_neighbors(name, c, query, d, &found)?;
    let of: Vec<i64> = found.iter().map(|f| d[f.0]).collect();
    ensure!(
        of.windows(2).all(|w| w[0] <= w[1]),
        "{name}: neighbors of {query:?} are not ordered: {found:?}"
    );
    ensure!(
        of == sorted[..expected],
        "{name}: {query:?} with k = {k} finds {found:?}, but the nearest squared lattice distances are {:?}",
        &sorted[..expected]
    );
    Ok(())
}

fn nearest_with<F: Float, P: MkPoint<F>>(
    name: &str,
    c: &SearchCase,
    search: &impl Search<F, P>,
) -> Result<(), String> {
    for (query, k, mode) in &c.queries {
        // -1 is usize::MAX.
        let (query, k) = (c.at(query), *k as isize as usize);
        let q: P = point(&query, &c.kind);
        let d = distances(c, &query);
        let mut sorted = d.clone();
        sorted.sort_unstable();
        if before(*mode) {
            let radius = F::from_f64(5.0 * c.kind.scale());
            sut(&format!("{name} search_radius"), || search.search_radius(&q, radius))?;
        }
        if first(*mode) {
            k_nearest(name, c, search, &query, &q, k, (&d, &sorted))?;
        }
        if !second(*mode) {
            continue;
        }
        let one = sut(&format!("{name} search_nearest"), || search.search_nearest(&q))?;
        match one {
            None => ensure!(d.is_empty(), "{name}: {query:?} has no nearest neighbor"),
            Some((index, distance)) => {
                let found = [(index, f64_of(distance))];
                ensure!(!d.is_empty(), "{name}: nearest neighbor without points");
                valid_neighbors(name, c, &query, &d, &found)?;
                ensure!(
                    d[index] == sorted[0],
                    "{name}: {query:?} has nearest neighbor {index} at squared lattice distance {}, but {} is nearer",
                    d[index],
                    sorted[0]
                );
            }
        }
    }
    Ok(())
}

fn nearest<F: Float, P: MkPoint<F>>(c: &SearchCase) -> Result<(), String> {
    let points: Vec<P> = c.points.iter().map(|p| point(p, &c.kind)).collect();
    let metric = c.kind.metric();
    let tree = sut("building the kd-tree", || kdtree::<F, P>(&points, &metric))?;
    nearest_with("kd-tree", c, &tree)?;
    let search = linear::<F, P>(&points, &metric);
    nearest_with("linear search", c, &search)?;
    Ok(())
}

impl Property for Nearest {
    type Case = AnyCase;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "Lattice point clouds (uniform, clustered, aligned, duplicated) with up to eight successive queries on one structure, datasets of up to 70,000 points and points with arbitrary coordinates, against brute force. Non-trivial: more points than some k > 1."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(1_500_000, 12_000_000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<AnyCase>> {
        let k = prop_oneof![6 => 0i32..12, 2 => 0i32..80, 1 => Just(1i32), 1 => Just(10_000), 1 => Just(-1)];
        Some(mixed(case(tier, k.boxed())))
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(48, 240)
    }
    fn enumerated(&self, tier: Tier, index: usize) -> AnyCase {
        AnyCase::Lattice(SearchCase::large(tier, index, &[1, 2, 7, 60, 1000, -1]))
    }
    fn narrow(&self, case: &AnyCase) -> AnyCase {
        let AnyCase::Lattice(large) = case else {
            return case.clone();
        };
        let fails = |c: &AnyCase| !matches!(self.check(c), Ok(Verdict::Pass { .. }));
        let mut smaller = large.narrower().into_iter().map(AnyCase::Lattice);
        smaller.find(fails).unwrap_or_else(|| case.clone())
    }
    fn check(&self, c: &AnyCase) -> Check {
        let c = match c {
            AnyCase::Lattice(c) => &c.complete(),
            AnyCase::Free(c) => return check_free(c, true),
        };
        dispatch!(c.kind, nearest, c)?;
        let partial = c
            .queries
            .iter()
            .any(|(_, k, _)| *k > 1 && (*k as usize) < c.points.len());
        let mut labels = c.kind.labels();
        labels.push(match c.points.len() {
            0 => "no points",
            1..=15 => "1-15 points",
            16..=59 => "16-59 points",
            60..=4999 => "60+ points",
            _ => "5,000+ points",
        });
        Ok(pass(partial, labels))
    }
}

// ------------------------------------------------------------------ C12

struct Radius;

fn radius_with<F: Float, P: MkPoint<F>>(
    name: &str,
    c: &SearchCase,
    search: &impl Search<F, P>,
    points: &[P],
) -> Result<u64, String> {
    let mut on_boundary = 0;
    for (query, r, mode) in &c.queries {
        let query = c.at(query);
        let q: P = point(&query, &c.kind);
        let d = distances(c, &query);
        // The radius is exact in both metrics; compare in squared lattice units.
        let s = c.kind.scale();
        let (radius, limit) = if *r == INFINITE {
            (f64::INFINITY, i64::MAX)
        } else if c.kind.squared {
            (f64::from(*r) * s * s, i64::from(*r))
        } else {
            (f64::from(*r) * s, i64::from(*r).pow(2))
        };
        if second(*mode) {
            boundary(name, search, points, c.kind.metric(), &q, *r as usize)?;
        }
        if !first(*mode) {
            continue;
        }
        if before(*mode) {
            sut(&format!("{name} search"), || search.search(&q, 1 + *r as usize % 7))?;
        }
        let found = floats(sut(&format!("{name} search_radius"), || {
            search.search_radius(&q, F::from_f64(radius))
        })?);
        valid_neighbors(name, c, &query, &d, &found)?;
        let mut indices: Vec<usize> = found.iter().map(|f| f.0).collect();
        indices.sort_unstable();
        let expected: Vec<usize> = (0..d.len())
            .filter(|&i| *r >= 0 && d[i] <= limit)
            .collect();
        ensure!(
            indices == expected,
            "{name}: {query:?} with radius {radius} finds {indices:?}, expected {expected:?}"
        );
        if *r >= 0 && d.contains(&limit) {
            on_boundary += 1;
        }
    }
    Ok(on_boundary)
}

fn radius<F: Float, P: MkPoint<F>>(c: &SearchCase) -> Result<u64, String> {
    let points: Vec<P> = c.points.iter().map(|p| point(p, &c.kind)).collect();
    let metric = c.kind.metric();
    let tree = sut("building the kd-tree", || kdtree::<F, P>(&points, &metric))?;
    radius_with("kd-tree", c, &tree, &points)?;
    let search = linear::<F, P>(&points, &metric);
    let boundary = radius_with("linear search", c, &search, &points)?;
    Ok(boundary)
}

impl Property for Radius {
    type Case = AnyCase;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "Lattice point clouds (uniform, clustered, aligned, duplicated) with up to eight successive queries on one structure, datasets of up to 70,000 points and points with arbitrary coordinates, against brute force. Non-trivial: some query finds some but not all points."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(1_500_000, 12_000_000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<AnyCase>> {
        let r = prop_oneof![
            6 => 0i32..12, 3 => 0i32..260, 2 => 0i32..4000, 1 => Just(0), 1 => -5i32..0, 1 => prop_oneof![Just(INFINITE), 100_000i32..40_000_000]
        ];
        Some(mixed(case(tier, r.boxed())))
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(48, 240)
    }
    fn enumerated(&self, tier: Tier, index: usize) -> AnyCase {
        AnyCase::Lattice(SearchCase::large(tier, index, &[0, 1, 5, 30, 900, 100_000, -1, INFINITE]))
    }
    fn narrow(&self, case: &AnyCase) -> AnyCase {
        let AnyCase::Lattice(large) = case else {
            return case.clone();
        };
        let fails = |c: &AnyCase| !matches!(self.check(c), Ok(Verdict::Pass { .. }));
        let mut smaller = large.narrower().into_iter().map(AnyCase::Lattice);
        smaller.find(fails).unwrap_or_else(|| case.clone())
    }
    fn check(&self, c: &AnyCase) -> Check {
        let c = match c {
            AnyCase::Lattice(c) => &c.complete(),
            AnyCase::Free(c) => return check_free(c, false),
        };
        let boundary = dispatch!(c.kind, radius, c)?;
        let mut labels = c.kind.labels();
        if boundary > 0 {
            labels.push("point on the boundary");
        }
        let partial = c.queries.iter().any(|(q, r, _)| {
            let r = i64::from(*r);
            let limit = if c.kind.squared { r } else { r * r };
            let d = distances(c, &c.at(q));
            let n = d.iter().filter(|v| r >= 0 && **v <= limit).count();
            n > 0 && n < d.len()
        });
        Ok(pass(partial, labels))
    }
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C11") => main_with(Nearest),
        Some("C12") => main_with(Radius),
        other => panic!("unknown property {other:?}"),
    }
}
