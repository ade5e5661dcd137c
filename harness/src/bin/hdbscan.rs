//! C21: core distances.
#[path = "../mathglue.rs"]
mod mathglue;
use auto_palette::verif_hooks::hdbscan::core_distances;
use mathglue::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::driver::*;
use vharness::ensure;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    points: Vec<Lattice>,
    /// Sample counts; -1 is usize::MAX.
    samples: Vec<i64>,
    /// More points, made from a seed.
    #[serde(default)]
    seeded: Option<Seeded>,
}

struct Core;

fn core<F: Float, P: MkPoint<F>>(c: &Case) -> Result<(), String> {
    let points: Vec<P> = c.points.iter().map(|p| point(p, &c.kind)).collect();
    let mut samples: Vec<usize> = c.samples.iter().map(|m| *m as usize).collect();
    samples.sort_unstable();
    let mut previous: Option<Vec<f64>> = None;
    for m in samples {
        let found: Vec<f64> = sut("core distances", || {
            core_distances::<F, P>(&points, m, c.kind.metric())
        })?
        .into_iter()
        .map(f64_of)
        .collect();
        ensure!(
            found.len() == points.len(),
            "{} core distances of {} points",
            found.len(),
            points.len()
        );
        for (i, p) in c.points.iter().enumerate() {
            let mut others: Vec<i64> = (0..c.points.len())
                .filter(|&j| j != i)
                .map(|j| d2(p, &c.points[j], c.kind.dim))
                .collect();
            others.sort_unstable();
            // A point without others is its own farthest point.
            let expected = others
                .get(m - 1)
                .or(others.last())
                .map_or(0.0, |d| c.kind.distance(*d));
            ensure!(
                c.kind.same(found[i], expected),
                "core distance {} of point {i} for {m} samples, expected {expected}",
                found[i]
            );
        }
        if let Some(previous) = &previous {
            ensure!(
                previous.iter().zip(&found).all(|(a, b)| a <= b),
                "core distances shrink from {previous:?} to {found:?} for {m} samples"
            );
        }
        previous = Some(found);
    }
    Ok(())
}

impl Property for Core {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "Lattice point clouds with exact distances and several sample counts, against brute force. Non-trivial: some sample count between 2 and the number of other points."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(500_000, 5_000_000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<Case>> {
        let m = prop_oneof![12 => 1i64..12, 4 => 1i64..80, 1 => Just(-1i64), 1 => Just(i64::MAX)];
        (
            kind(),
            prop_oneof![30 => cloud(0..50usize), 1 => cloud(50..tier.pick(250usize, 800))],
            proptest::collection::vec(m, 1..5),
            translation(),
        )
            .prop_map(|(kind, points, samples, by)| Case {
                kind,
                points: points.into_iter().map(|p| translated(p, &by)).collect(),
                samples,
                seeded: None,
            })
            .boxed()
            .into()
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(24, 120)
    }
    fn enumerated(&self, tier: Tier, index: usize) -> Case {
        let seed = vharness::image_model::mix(11, index as u64);
        let r = |k: u64, m: u64| (vharness::image_model::mix(seed, k) % m) as usize;
        Case {
            kind: Kind {
                dim: [2, 3, 5][r(0, 3)],
                single: r(1, 2) == 0,
                squared: r(2, 2) == 0,
                shift: 0,
            },
            points: vec![],
            samples: vec![[1, 5, 100, 700][r(3, 4)], [2, 30, -1][r(4, 3)]],
            seeded: Some(Seeded {
                n: tier.pick([300, 700, 1500], [700, 2000, 4000])[index % 3],
                range: [10, 60, 190][r(5, 3)],
                copies: [1, 1, 9][r(6, 3)],
                seed,
            }),
        }
    }
    fn narrow(&self, case: &Case) -> Case {
        let fails = |c: &Case| !matches!(self.check(c), Ok(Verdict::Pass { .. }));
        let seeded = case.seeded.iter().flat_map(|s| s.smaller().collect::<Vec<_>>());
        let mut smaller = seeded.map(|s| Case {
            seeded: Some(s),
            ..case.clone()
        });
        smaller.find(fails).unwrap_or_else(|| case.clone())
    }
    fn check(&self, c: &Case) -> Check {
        let mut c = c.clone();
        if let Some(s) = c.seeded.take() {
            c.points.extend(s.points());
        }
        let c = &c;
        dispatch!(c.kind, core, c)?;
        let n = c.points.len() as i64;
        let mut labels = c.kind.labels();
        if c.samples.iter().any(|m| *m < 0 || *m >= n) {
            labels.push("fewer other points than samples");
        }
        Ok(pass(c.samples.iter().any(|m| *m > 1 && *m < n), labels))
    }
}

fn main() {
    main_with(Core)
}
