//! C28: how much of a dataset searches and density clustering inspect.
use auto_palette::verif_hooks::dbscan::fit;
use auto_palette::verif_hooks::math::*;
use auto_palette::verif_hooks::neighbors::*;
use num_traits::Zero;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::ops::*;
use vharness::driver::*;
use vharness::ensure;
use vharness::image_model::mix;

thread_local!(static CALLS: Cell<u64> = const { Cell::new(0) });

fn count() {
    CALLS.with(|c| c.set(c.get() + 1));
}

fn calls<T>(f: impl FnOnce() -> T) -> (f64, T) {
    let before = CALLS.get();
    let v = f();
    ((CALLS.get() - before) as f64, v)
}

/// A point that counts how often its components are used.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Counted<F, const D: usize>([F; D]);

impl<F: Float, const D: usize> Index<usize> for Counted<F, D> {
    type Output = F;
    fn index(&self, k: usize) -> &F {
        count();
        &self.0[k]
    }
}

impl<F: Float, const D: usize> Zero for Counted<F, D> {
    fn zero() -> Self {
        Self([F::zero(); D])
    }
    fn is_zero(&self) -> bool {
        self.0.iter().all(|v| v.is_zero())
    }
}

macro_rules! operators {
    ($($op:ident $f:ident $assign:ident $g:ident $rhs:ty, $get:expr);*) => { $(
        impl<F: Float, const D: usize> $op<$rhs> for Counted<F, D> {
            type Output = Self;
            fn $f(self, rhs: $rhs) -> Self {
                count();
                Self(std::array::from_fn(|k| self.0[k].$f($get(&rhs, k))))
            }
        }
        impl<F: Float, const D: usize> $assign<$rhs> for Counted<F, D> {
            fn $g(&mut self, rhs: $rhs) {
                *self = self.$f(rhs);
            }
        }
    )* };
}
operators!(
    Add add AddAssign add_assign Self, |r: &Self, k: usize| r.0[k];
    Sub sub SubAssign sub_assign Self, |r: &Self, k: usize| r.0[k];
    Mul mul MulAssign mul_assign F, |r: &F, _| *r;
    Div div DivAssign div_assign F, |r: &F, _| *r
);

impl<F: Float, const D: usize> Point<F> for Counted<F, D> {
    fn dim(&self) -> usize {
        D
    }
    fn to_vec(&self) -> Vec<F> {
        count();
        self.0.to_vec()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spread {
    n: usize,
    cube: bool,
    grid: bool,
    single: bool,
    squared: bool,
    /// Exponent of the scale and offsets.
    scale: i8,
    offset: [i8; 3],
    seed: u64,
    cluster: bool,
}

const QUERIES: usize = 60;

struct Effort;

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// Shares of the points that radius search, nearest search and clustering inspect.
fn shares<F: Float, const D: usize>(c: &Spread) -> Result<([f64; 3], usize), String> {
    let side = (c.n as f64).powf(1.0 / D as f64).ceil() as usize;
    let total = side.pow(D as u32);
    let scale = 2f64.powi(c.scale.into());
    // A grid is given in a mixed order.
    let mut step = mix(c.seed, 1) as usize % total;
    while gcd(step, total) != 1 {
        step += 1;
    }
    let mut at = 0;
    let points: Vec<Counted<F, D>> = (0..if c.grid { total } else { c.n })
        .map(|i| {
            at = (at + step) % total;
            Counted(std::array::from_fn(|k| {
                let v = if c.grid {
                    (at / side.pow(k as u32) % side) as f64 / side as f64
                } else {
                    (mix(c.seed, (i * D + k) as u64) >> 40) as f64 / (1u64 << 24) as f64
                };
                F::from_f64((v + f64::from(c.offset[k])) * scale)
            }))
        })
        .collect();
    let volume = if D == 2 { std::f64::consts::PI } else { 4.0 / 3.0 * std::f64::consts::PI };
    let r = (0.001 / volume).powf(1.0 / D as f64) * scale;
    let (metric, r) = if c.squared {
        (DistanceMetric::SquaredEuclidean, r * r)
    } else {
        (DistanceMetric::Euclidean, r)
    };
    let r = F::from_f64(r);
    let tree = sut("building", || kdtree(&points, &metric))?;
    let line = linear(&points, &metric);
    let (mut all, mut near, mut nearest, mut found) = (0.0, 0.0, 0.0, 0);
    for i in 0..QUERIES {
        let q = points[mix(c.seed, 7 + i as u64) as usize % points.len()];
        // A place between the points.
        let mut p = q;
        p.0[0] += F::from_f64(scale / side as f64 / 2.0);
        all += sut("linear search", || calls(|| line.search_radius(&q, r)))?.0;
        let (effort, list) = sut("search", || calls(|| tree.search_radius(&q, r)))?;
        near += effort;
        found += list.len();
        nearest += sut("search", || calls(|| tree.search_nearest(&p)))?.0;
    }
    let mut clustering = 0.0;
    if c.cluster {
        clustering = sut("clustering", || calls(|| fit(&points, 4, r, metric)))?.0
            / (all / QUERIES as f64 * points.len() as f64);
    }
    Ok(([near / all, nearest / all, clustering], found / QUERIES))
}

impl Property for Effort {
    type Case = Spread;
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "20,000 to 40,000 points at random or on a grid in a square or cube, counting the uses of points. Non-trivial: the radius holds at least five points on average."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["Uses of a point's components, differences and lists of components count as inspections, in relation to those of linear search."]
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(800, 10_000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<Spread>> {
        (
            (20_000usize..tier.pick(40_000, 80_000), any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>()),
            (-8i8..9, [-2i8..3, -2i8..3, -2i8..3], any::<u64>(), prop::bool::weighted(0.25)),
        )
            .prop_map(|((n, cube, grid, single, squared), (scale, offset, seed, cluster))| Spread {
                n,
                cube,
                grid,
                single,
                squared,
                scale,
                offset,
                seed,
                cluster,
            })
            .boxed()
            .into()
    }
    fn check(&self, c: &Spread) -> Check {
        let (s, found) = match (c.cube, c.single) {
            (false, false) => shares::<f64, 2>(c),
            (false, true) => shares::<f32, 2>(c),
            (true, false) => shares::<f64, 3>(c),
            (true, true) => shares::<f32, 3>(c),
        }?;
        let most = if c.cube { 0.05 } else { 0.03 };
        for (what, share, most) in [
            ("a radius search", s[0], most),
            ("a nearest-point search", s[1], 0.25),
            ("density clustering", s[2], most),
        ] {
            ensure!(
                share <= most,
                "{what} needs {:.2} % of the work of inspecting every point (at most {} %)",
                100.0 * share,
                100.0 * most
            );
        }
        let mut labels = vec![
            if c.cube { "cube" } else { "square" },
            if c.grid { "grid" } else { "random" },
            if c.single { "f32" } else { "f64" },
        ];
        if c.cluster {
            labels.push("clustered");
        }
        for (k, name) in [(0, "radius search above half of the bound"), (2, "clustering above half of the bound")] {
            if s[k] > most / 2.0 {
                labels.push(name);
            }
        }
        if s[1] > 0.125 {
            labels.push("nearest search above half of the bound");
        }
        Ok(pass(found >= 5, labels))
    }
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C28") => main_with(Effort),
        other => panic!("unknown property {other:?}"),
    }
}
