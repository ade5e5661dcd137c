//! Point clouds on an integer lattice and their conversion to the crate's point types.
//! Included by the binaries that use the `math` hooks.
//!
//! Coordinates are integers times a power of two, so differences, their squares and sums of those
//! are exact in both precisions whatever the order of summation.
#![allow(dead_code)]
pub use auto_palette::verif_hooks::math::{DistanceMetric, Float, Point, Point2, Point3, Point5};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub trait MkPoint<F: Float>: Point<F> {
    fn mk(c: &[F]) -> Self;
}
impl<F: Float> MkPoint<F> for Point2<F> {
    fn mk(c: &[F]) -> Self {
        Point2(c[0], c[1])
    }
}
impl<F: Float> MkPoint<F> for Point3<F> {
    fn mk(c: &[F]) -> Self {
        Point3(c[0], c[1], c[2])
    }
}
impl<F: Float> MkPoint<F> for Point5<F> {
    fn mk(c: &[F]) -> Self {
        Point5(c[0], c[1], c[2], c[3], c[4])
    }
}

pub type Lattice = [i16; 5];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Kind {
    /// 2, 3 or 5.
    pub dim: u8,
    pub single: bool,
    pub squared: bool,
    /// Coordinates are multiplied by 2 to this power.
    pub shift: i8,
}

impl Kind {
    pub fn metric(&self) -> DistanceMetric {
        if self.squared {
            DistanceMetric::SquaredEuclidean
        } else {
            DistanceMetric::Euclidean
        }
    }
    pub fn scale(&self) -> f64 {
        2f64.powi(i32::from(self.shift))
    }
    /// Distance in the metric for a squared lattice distance, correctly rounded in f64.
    pub fn distance(&self, d2: i64) -> f64 {
        let s = self.scale();
        if self.squared {
            d2 as f64 * s * s
        } else {
            (d2 as f64).sqrt() * s
        }
    }
    /// Are two distances the same up to rounding in the given precision?
    pub fn same(&self, a: f64, b: f64) -> bool {
        let tolerance = if self.single { 1e-6 } else { 1e-14 };
        (a - b).abs() <= tolerance * a.abs().max(b.abs())
    }
    pub fn labels(&self) -> Vec<&'static str> {
        vec![
            match self.dim {
                2 => "2-D",
                3 => "3-D",
                _ => "5-D",
            },
            if self.single { "f32" } else { "f64" },
            if self.squared { "squared" } else { "euclidean" },
            match self.shift {
                i8::MIN..=-20 => "tiny coordinates",
                -19..=-3 => "small coordinates",
                -2..=19 => "large coordinates",
                _ => "huge coordinates",
            },
        ]
    }
}

pub fn kind() -> impl Strategy<Value = Kind> {
    (
        prop_oneof![Just(2u8), Just(3), Just(5)],
        any::<bool>(),
        any::<bool>(),
        prop_oneof![4 => Just(0i8), 3 => Just(-4), 3 => Just(-7), 3 => Just(-10), 3 => Just(3), 1 => Just(-30), 1 => Just(30)],
    )
        .prop_map(|(dim, single, squared, shift)| Kind {
            dim,
            single,
            squared,
            shift,
        })
}

pub fn d2(a: &Lattice, b: &Lattice, dim: u8) -> i64 {
    (0..dim as usize)
        .map(|k| (i64::from(a[k]) - i64::from(b[k])).pow(2))
        .sum()
}

pub fn point<F: Float, P: MkPoint<F>>(c: &Lattice, kind: &Kind) -> P {
    let s = kind.scale();
    P::mk(&c.map(|v| F::from_f64(f64::from(v) * s)))
}

pub fn f64_of<F: Float>(v: F) -> f64 {
    num_traits::ToPrimitive::to_f64(&v).expect("a float")
}

/// Lattice points: uniform in narrow or wide ranges, around a few centres, on lines, duplicated.
pub fn cloud(len: impl Into<proptest::collection::SizeRange> + Clone) -> BoxedStrategy<Vec<Lattice>> {
    let range = |r: i16| [-r..r + 1, -r..r + 1, -r..r + 1, -r..r + 1, -r..r + 1];
    let uniform = |r: i16| proptest::collection::vec(range(r), len.clone());
    let clustered = (
        proptest::collection::vec(range(150), 1..5),
        proptest::collection::vec((any::<u8>(), range(6)), len.clone()),
    )
        .prop_map(|(centers, v)| {
            v.into_iter()
                .map(|(i, o)| {
                    let c = centers[i as usize % centers.len()];
                    [0, 1, 2, 3, 4].map(|k| c[k] + o[k])
                })
                .collect::<Vec<Lattice>>()
        });
    let aligned = (
        proptest::collection::vec((-60i16..61, -1i16..2), len.clone()),
        0usize..5,
    )
        .prop_map(|(v, axis)| {
            v.into_iter()
                .map(|(t, o)| {
                    let mut c = [o; 5];
                    c[axis] = t;
                    c
                })
                .collect::<Vec<Lattice>>()
        });
    let duplicated = (
        proptest::collection::vec(range(40), 1..8),
        proptest::collection::vec(any::<u8>(), len.clone()),
    )
        .prop_map(|(base, v)| {
            v.into_iter()
                .map(|i| base[i as usize % base.len()])
                .collect::<Vec<Lattice>>()
        });
    prop_oneof![
        3 => uniform(4),
        2 => uniform(12),
        3 => uniform(180),
        2 => clustered,
        1 => aligned,
        1 => duplicated,
    ]
    .boxed()
}

/// Mostly no translation; clouds far from the origin have larger coordinates than distances.
pub fn translation() -> BoxedStrategy<Lattice> {
    let far = || prop_oneof![Just(0i16), -400i16..400, Just(9000), Just(-9000), Just(25_000)];
    prop_oneof![
        5 => Just([0; 5]),
        1 => [far(), far(), far(), far(), far()],
    ]
    .boxed()
}

pub fn translated(p: Lattice, by: &Lattice) -> Lattice {
    [0, 1, 2, 3, 4].map(|k| p[k] + by[k])
}

/// A cloud made from a seed, for datasets too large to be generated and shrunk point by point.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Seeded {
    pub n: usize,
    /// Coordinates are below this.
    pub range: i16,
    /// Number of copies of each point.
    pub copies: usize,
    pub seed: u64,
}

impl Seeded {
    pub fn points(&self) -> Vec<Lattice> {
        let side = u64::from(self.range.unsigned_abs());
        (0..self.n)
            .map(|i| {
                let i = (i / self.copies) as u64;
                [0, 1, 2, 3, 4].map(|k| {
                    let r = vharness::image_model::mix(self.seed.wrapping_add(k), i);
                    (r % (2 * side + 1)) as i16 - self.range
                })
            })
            .collect()
    }
    pub fn smaller(&self) -> impl Iterator<Item = Seeded> + '_ {
        let halves = std::iter::successors(Some(1usize), |n| Some(n * 2));
        halves
            .take_while(|n| *n < self.n)
            .map(|n| Seeded { n, ..self.clone() })
    }
}

/// Many points on a line that share one coordinate: any mean of them has it, too.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bulk {
    pub n: u32,
    pub coordinate: f32,
    pub single: bool,
}

impl Bulk {
    pub fn points<F: Float>(&self) -> Vec<Point2<F>> {
        let shared = F::from_f32(self.coordinate);
        (0..self.n)
            .map(|i| Point2(shared, F::from_f64(f64::from(i) / f64::from(self.n))))
            .collect()
    }
    /// Sizes and coordinates of some such datasets.
    pub fn examples(i: usize) -> Bulk {
        Bulk {
            n: [100_000, 60_000, 110_000, 80_000][i % 4],
            coordinate: 0.98272 - 0.0371 * i as f32,
            single: i % 8 != 7,
        }
    }
    pub fn accurate<F: Float>(&self, mean: &Point2<F>) -> Result<(), String> {
        let error = (f64_of(mean.0) - f64::from(self.coordinate)).abs();
        vharness::ensure!(
            error <= 2e-5,
            "the mean of points that share the coordinate {} has {:?} there",
            self.coordinate,
            mean.0
        );
        Ok(())
    }
}

/// Call a generic function for the point and float type of a kind.
#[macro_export]
macro_rules! dispatch {
    ($kind:expr, $f:ident, $($arg:expr),*) => {
        match ($kind.dim, $kind.single) {
            (2, false) => $f::<f64, Point2<f64>>($($arg),*),
            (3, false) => $f::<f64, Point3<f64>>($($arg),*),
            (_, false) => $f::<f64, Point5<f64>>($($arg),*),
            (2, true) => $f::<f32, Point2<f32>>($($arg),*),
            (3, true) => $f::<f32, Point3<f32>>($($arg),*),
            (_, true) => $f::<f32, Point5<f32>>($($arg),*),
        }
    };
}
