//! C22, C23 and C25: distance metrics, points and numbers.
#[path = "../mathglue.rs"]
mod mathglue;
use auto_palette::verif_hooks::math::{Clamp, Number};
use mathglue::*;
use num_traits::Zero;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::ops::{Div, Mul};
use vharness::driver::*;
use vharness::ensure;

/// A point with all the operators of the concrete types.
trait FullPoint<F: Float>: MkPoint<F> + Mul<F, Output = Self> + Div<F, Output = Self> {
    fn make(c: &[F]) -> Self;
}
impl<F: Float> FullPoint<F> for Point2<F> {
    fn make(c: &[F]) -> Self {
        Point2::new(c[0], c[1])
    }
}
impl<F: Float> FullPoint<F> for Point3<F> {
    fn make(c: &[F]) -> Self {
        Point3::new(c[0], c[1], c[2])
    }
}
impl<F: Float> FullPoint<F> for Point5<F> {
    fn make(c: &[F]) -> Self {
        Point5::new(c[0], c[1], c[2], c[3], c[4])
    }
}

/// Relative rounding error of one operation.
fn unit(kind: &Kind) -> f64 {
    if kind.single {
        f64::from(f32::EPSILON)
    } else {
        f64::EPSILON
    }
}

/// Finite numbers of many magnitudes, far from overflow and underflow in single precision.
fn number() -> impl Strategy<Value = f64> {
    prop_oneof![
        4 => -100.0f64..100.0,
        2 => (-20i32..21).prop_map(f64::from),
        1 => (-1.0f64..1.0, -14i32..15).prop_map(|(m, e)| m * 2f64.powi(e)),
        1 => Just(0.0),
        1 => Just(-0.0),
    ]
    // Exact in single precision, too.
    .prop_map(|v| f64::from(v as f32))
}

fn vector() -> impl Strategy<Value = [f64; 5]> {
    [number(), number(), number(), number(), number()]
}

/// Numbers down to and up to about `1e-30` and `1e30`, too.
fn wide_number() -> impl Strategy<Value = f64> {
    let wide = (-1.0f64..1.0, -90i32..91).prop_map(|(m, e)| f64::from((m * 2f64.powi(e)) as f32));
    prop_oneof![5 => number(), 1 => wide]
}

fn wide_vector() -> impl Strategy<Value = [f64; 5]> {
    let n = wide_number;
    [n(), n(), n(), n(), n()]
}

// ------------------------------------------------------------------ C22

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Metric {
    kind: Kind,
    /// Exact lattice points and a translation.
    lattice: [Lattice; 3],
    translation: Lattice,
    free: [[f64; 5]; 3],
}

struct Laws;

fn laws<F: Float, P: MkPoint<F>>(c: &Metric) -> Result<(), String> {
    let euclidean = |a: &P, b: &P| f64_of(DistanceMetric::Euclidean.measure(a, b));
    let squared = |a: &P, b: &P| f64_of(DistanceMetric::SquaredEuclidean.measure(a, b));
    let dim = c.kind.dim as usize;
    let eps = unit(&c.kind);
    // Lattice points: distances are exact.
    let p: Vec<P> = c.lattice.iter().map(|v| point(v, &c.kind)).collect();
    let moved: Vec<P> = c
        .lattice
        .iter()
        .map(|v| point(&[0, 1, 2, 3, 4].map(|k| v[k] + c.translation[k]), &c.kind))
        .collect();
    let s = c.kind.scale();
    for i in 0..3 {
        for j in 0..3 {
            let d = d2(&c.lattice[i], &c.lattice[j], c.kind.dim) as f64;
            let (e, q) = (euclidean(&p[i], &p[j]), squared(&p[i], &p[j]));
            let (a, b) = (&c.lattice[i], &c.lattice[j]);
            ensure!(
                q == d * s * s,
                "squared distance of {a:?} and {b:?} is {q}, expected {}",
                d * s * s
            );
            ensure!(
                c.kind.same(e, d.sqrt() * s),
                "distance of {a:?} and {b:?} is {e}, expected {}",
                d.sqrt() * s
            );
            ensure!(
                squared(&moved[i], &moved[j]) == q && euclidean(&moved[i], &moved[j]) == e,
                "distances of {a:?} and {b:?} change under the translation {:?}",
                c.translation
            );
        }
    }
    // Any points: up to rounding.
    let p: Vec<P> = c
        .free
        .iter()
        .map(|v| P::mk(&v.map(F::from_f64)))
        .collect();
    let mut e = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            let (a, b) = (&c.free[i], &c.free[j]);
            let q = squared(&p[i], &p[j]);
            e[i][j] = euclidean(&p[i], &p[j]);
            let expected: f64 = (0..dim).map(|k| (a[k] - b[k]).powi(2)).sum();
            ensure!(
                (q - expected).abs() <= expected * eps * 16.0 + 1e-36,
                "squared distance of {a:?} and {b:?} is {q}, expected {expected}"
            );
            ensure!(
                (e[i][j] - expected.sqrt()).abs() <= expected.sqrt() * eps * 16.0 + 1e-18,
                "distance of {a:?} and {b:?} is {}, expected {}",
                e[i][j],
                expected.sqrt()
            );
            ensure!(
                q >= 0.0 && e[i][j] >= 0.0,
                "distances {q} and {} of {a:?} and {b:?}",
                e[i][j]
            );
            ensure!(
                q == squared(&p[j], &p[i]) && e[i][j] == euclidean(&p[j], &p[i]),
                "distances of {a:?} and {b:?} are not symmetric"
            );
            let same = (0..dim).all(|k| a[k] == b[k]);
            ensure!(
                !same || (q == 0.0 && e[i][j] == 0.0),
                "distances {q} and {} of the identical points {a:?} and {b:?}",
                e[i][j]
            );
            let measurable = (0..dim).any(|k| (a[k] - b[k]).abs() > 1e-12);
            ensure!(
                !measurable || (q > 0.0 && e[i][j] > 0.0),
                "distances {q} and {} of the different points {a:?} and {b:?}",
                e[i][j]
            );
        }
    }
    let [x, y, z] = [e[0][1], e[1][2], e[0][2]];
    ensure!(
        z <= (x + y) * (1.0 + 32.0 * eps) + 1e-17,
        "distances {x}, {y} and {z} of {:?} break the triangle inequality",
        c.free
    );
    Ok(())
}

impl Property for Laws {
    type Case = Metric;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "Triples of lattice points (exact) and of arbitrary points (up to rounding). Non-trivial: three different lattice points."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(600_000, 20_000_000)
    }
    fn strategy(&self, _tier: Tier) -> Option<BoxedStrategy<Metric>> {
        let r = || prop_oneof![2 => -190i16..191, 1 => -3i16..4];
        let l = move || [r(), r(), r(), r(), r()];
        // Equal and nearly equal points, too.
        let exponent = prop_oneof![3 => Just(0), 1 => -20i32..41];
        let free = (vector(), vector(), vector(), 0u8..6, exponent).prop_map(|(a, b, c, how, e)| {
            let points = match how {
                0 => [a, a, b],
                1 => [a, b, b],
                2 => [a, a.map(|v| f64::from((v * 1.001) as f32)), c],
                _ => [a, b, c],
            };
            points.map(|p| p.map(|v| v * 2f64.powi(e)))
        });
        (kind(), [l(), l(), l()], l(), free)
            .prop_map(|(kind, lattice, translation, free)| Metric {
                kind,
                lattice,
                translation,
                free,
            })
            .boxed()
            .into()
    }
    fn check(&self, c: &Metric) -> Check {
        sut("measuring", || dispatch!(c.kind, laws, c))??;
        let d = |i: usize, j: usize| d2(&c.lattice[i], &c.lattice[j], c.kind.dim) > 0;
        Ok(pass(d(0, 1) && d(1, 2) && d(0, 2), c.kind.labels()))
    }
}

// ------------------------------------------------------------------ C23

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add([f64; 5]),
    Sub([f64; 5]),
    Mul(f64),
    Div(f64),
    SetZero,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sequence {
    kind: Kind,
    start: [f64; 5],
    ops: Vec<Op>,
}

struct Arithmetic;

fn components<F: Float, P: Point<F>>(p: &P) -> Vec<f64> {
    p.to_vec().into_iter().map(f64_of).collect()
}

fn consistent<F: Float, P: FullPoint<F>>(p: &P, dim: usize) -> Result<(), String> {
    let list = components(p);
    ensure!(
        p.dim() == dim && list.len() == dim,
        "dimension {} and components {list:?}, expected {dim}",
        p.dim()
    );
    for (k, v) in list.iter().enumerate() {
        ensure!(
            f64_of(p[k]) == *v,
            "component {k} of {p:?} is {:?}, but the list has {v}",
            p[k]
        );
    }
    for k in [dim, dim + 1, 5, 6, usize::MAX] {
        if k >= dim {
            ensure!(
                quiet(|| p[k]).is_err(),
                "indexing {p:?} with {k} does not panic"
            );
        }
    }
    ensure!(
        p.is_zero() == list.iter().all(|v| *v == 0.0),
        "is_zero of {p:?} is {}",
        p.is_zero()
    );
    Ok(())
}

fn arithmetic<F: Float, P: FullPoint<F>>(c: &Sequence) -> Result<(), String> {
    let dim = c.kind.dim as usize;
    let eps = unit(&c.kind);
    let of = |v: &[f64; 5]| P::make(&v.map(F::from_f64));
    let mut p = of(&c.start);
    ensure!(
        components(&p) == c.start[..dim] && components(&P::mk(&c.start.map(F::from_f64))) == c.start[..dim],
        "a new point {p:?} does not have the components {:?}",
        c.start
    );
    let zero = P::zero();
    ensure!(
        zero.is_zero() && components(&zero).iter().all(|v| *v == 0.0),
        "zero is {zero:?}"
    );
    consistent(&zero, dim)?;
    consistent(&p, dim)?;
    let zero_divisors = [F::zero(), -F::zero()];
    for divisor in zero_divisors {
        ensure!(
            quiet(|| p / divisor).is_err(),
            "dividing {p:?} by zero does not panic"
        );
        ensure!(
            quiet(|| {
                let mut q = p;
                q /= divisor;
                q
            })
            .is_err(),
            "dividing {p:?} by zero in place does not panic"
        );
    }
    for op in &c.ops {
        let before = components(&p);
        if before.iter().any(|v| v.abs() > 1e30) {
            break;
        }
        let mut in_place = p;
        let (expected, result): (Vec<f64>, P) = match op {
            Op::Add(v) => {
                in_place += of(v);
                ((0..dim).map(|k| before[k] + v[k]).collect(), p + of(v))
            }
            Op::Sub(v) => {
                in_place -= of(v);
                ((0..dim).map(|k| before[k] - v[k]).collect(), p - of(v))
            }
            Op::Mul(s) => {
                let f = F::from_f64(*s);
                in_place *= f;
                (before.iter().map(|v| v * s).collect(), p * f)
            }
            Op::Div(s) => {
                let f = F::from_f64(*s);
                if *s == 0.0 {
                    continue;
                }
                in_place /= f;
                (before.iter().map(|v| v / s).collect(), p / f)
            }
            Op::SetZero => {
                in_place.set_zero();
                (vec![0.0; dim], P::zero())
            }
        };
        if expected.iter().any(|v| v.abs() > 1e37) {
            // Close to overflow in single precision.
            break;
        }
        for (what, r) in [("result", &result), ("in-place result", &in_place)] {
            let got = components(r);
            ensure!(
                got.iter()
                    .zip(&expected)
                    .all(|(a, b)| (a - b).abs() <= b.abs() * 4.0 * eps + 1e-37),
                "{what} of {op:?} on {before:?} is {got:?}, expected {expected:?}"
            );
        }
        ensure!(
            components(&result) == components(&in_place),
            "{op:?} on {before:?} gives {result:?}, but {in_place:?} in place"
        );
        let neutral = [result + zero, zero + result, result - zero];
        ensure!(
            neutral.iter().all(|n| components(n) == components(&result)),
            "zero is not neutral for {result:?}: {neutral:?}"
        );
        consistent(&result, dim)?;
        p = in_place;
    }
    Ok(())
}

impl Property for Arithmetic {
    type Case = Sequence;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "Sequences of operators, each in both forms, against arithmetic on lists of components. Non-trivial: at least two operations."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(80_000, 2_000_000)
    }
    fn strategy(&self, _tier: Tier) -> Option<BoxedStrategy<Sequence>> {
        let op = prop_oneof![
            4 => wide_vector().prop_map(Op::Add),
            4 => wide_vector().prop_map(Op::Sub),
            3 => wide_number().prop_map(Op::Mul),
            3 => wide_number().prop_map(Op::Div),
            1 => Just(Op::SetZero),
        ];
        // Points with zeros in some components only.
        let start = (wide_vector(), any::<[bool; 5]>(), any::<bool>()).prop_map(|(v, mask, some)| {
            [0, 1, 2, 3, 4].map(|k| if some && mask[k] { 0.0 } else { v[k] })
        });
        (kind(), start, proptest::collection::vec(op, 0..10))
            .prop_map(|(kind, start, ops)| Sequence { kind, start, ops })
            .boxed()
            .into()
    }
    fn check(&self, c: &Sequence) -> Check {
        sut("point arithmetic", || dispatch!(c.kind, arithmetic, c))??;
        Ok(pass(c.ops.len() >= 2, c.kind.labels()))
    }
}

// ------------------------------------------------------------------ C25

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Numbers {
    /// Value, bounds and a second value as unsigned integers.
    integers: [u64; 4],
    /// The same as floats.
    floats: [f64; 4],
    byte: u8,
    wide: u64,
    real: f64,
}

struct Conversion;

fn clamps<T: Clamp + Copy + PartialOrd + Debug>(v: [T; 4], name: &str) -> Result<(), String> {
    let (low, high) = if v[1] <= v[2] { (v[1], v[2]) } else { (v[2], v[1]) };
    let clamp = |x: T| sut("clamp", || Clamp::clamp(x, low, high));
    let (x, y) = (v[0], v[3]);
    let (a, b) = (clamp(x)?, clamp(y)?);
    for (x, a) in [(x, a), (y, b), (low, clamp(low)?), (high, clamp(high)?)] {
        let expected = if x < low {
            low
        } else if x > high {
            high
        } else {
            x
        };
        ensure!(
            a == expected,
            "{name}: {x:?} clamped to {low:?}..={high:?} is {a:?}, expected {expected:?}"
        );
        ensure!(
            clamp(a)? == a,
            "{name}: clamping {a:?} to {low:?}..={high:?} again changes it"
        );
    }
    ensure!(
        if x <= y { a <= b } else { a >= b },
        "{name}: clamping to {low:?}..={high:?} reorders {x:?} and {y:?}"
    );
    Ok(())
}

fn small<T: Number + TryInto<u128>>(n: u8, name: &str) -> Result<(), String> {
    let all = [
        T::from_u8(n),
        T::from_u32(n.into()),
        T::from_u64(n.into()),
        T::from_usize(n.into()),
    ];
    for v in all {
        let back = v.try_into().ok();
        ensure!(
            back == Some(u128::from(n)),
            "{name}: {n} is converted to {v:?}"
        );
    }
    Ok(())
}

/// Is `v` the nearest single precision number to an integer?
fn nearest_f32(v: f32, n: u64) -> bool {
    // All single precision numbers in question are integers.
    let distance = |x: f32| (i128::from(n) - x as i128).abs();
    v >= 0.0
        && v.fract() == 0.0
        && distance(v) <= distance(v.next_up())
        && (v == 0.0 || distance(v) <= distance(v.next_down()))
}

fn nearest_f64(v: f64, n: u64) -> bool {
    let distance = |x: f64| (i128::from(n) - x as i128).abs();
    v >= 0.0
        && v.fract() == 0.0
        && distance(v) <= distance(v.next_up())
        && (v == 0.0 || distance(v) <= distance(v.next_down()))
}

impl Property for Conversion {
    type Case = Numbers;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "Clamping and conversions for u8, u16, u32, u64, u128, f32 and f64, of numbers of all magnitudes. Non-trivial: the value lies outside of the bounds."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(600_000, 20_000_000)
    }
    fn strategy(&self, _tier: Tier) -> Option<BoxedStrategy<Numbers>> {
        let integer = || {
            prop_oneof![
                any::<u64>(),
                (any::<u64>(), 0u32..64).prop_map(|(v, s)| v >> s),
                (0u32..64, -3i64..4).prop_map(|(s, o)| (1u64 << s).wrapping_add_signed(o)),
                0u64..300,
            ]
        };
        let real = || {
            prop_oneof![
                4 => number(),
                1 => any::<f64>().prop_filter("not a number", |v| !v.is_nan()),
                1 => any::<f32>().prop_filter("not a number", |v| !v.is_nan()).prop_map(f64::from),
                1 => Just(f64::INFINITY),
                1 => Just(f64::NEG_INFINITY),
            ]
        };
        (
            [integer(), integer(), integer(), integer()],
            [real(), real(), real(), real()],
            any::<u8>(),
            integer(),
            real(),
        )
            .prop_map(|(integers, floats, byte, wide, real)| Numbers {
                integers,
                // Serialized cases have no infinite numbers.
                floats: floats.map(|v| v.clamp(-f64::MAX, f64::MAX)),
                byte,
                wide,
                real: real.clamp(-f64::MAX, f64::MAX),
            })
            .boxed()
            .into()
    }
    fn check(&self, c: &Numbers) -> Check {
        let i = c.integers;
        clamps(i.map(|v| v as u8), "u8")?;
        clamps(i.map(|v| v as u16), "u16")?;
        clamps(i.map(|v| v as u32), "u32")?;
        clamps(i, "u64")?;
        clamps(i.map(|v| u128::from(v) << (v % 60)), "u128")?;
        clamps(c.floats, "f64")?;
        clamps(c.floats.map(|v| v as f32), "f32")?;

        let n = c.byte;
        small::<u8>(n, "u8")?;
        small::<u16>(n, "u16")?;
        small::<u32>(n, "u32")?;
        small::<u64>(n, "u64")?;
        small::<u128>(n, "u128")?;
        let w = c.wide;
        let h = w as u32;
        let exact = <u64 as Number>::from_u64(w) == w
            && <u128 as Number>::from_u64(w) == u128::from(w)
            && <u64 as Number>::from_usize(w as usize) == w
            && <u128 as Number>::from_usize(w as usize) == u128::from(w)
            && <u32 as Number>::from_u32(h) == h
            && <u64 as Number>::from_u32(h) == u64::from(h)
            && <u128 as Number>::from_u32(h) == u128::from(h);
        ensure!(exact, "an integer conversion of {w} or {h} is not exact");

        for (name, v, n) in [
            ("from_u8", <f32 as Number>::from_u8(n), u64::from(n)),
            ("from_u32", <f32 as Number>::from_u32(h), u64::from(h)),
            ("from_u64", <f32 as Number>::from_u64(w), w),
            ("from_usize", <f32 as Number>::from_usize(w as usize), w),
        ] {
            ensure!(nearest_f32(v, n), "f32::{name} of {n} is {v}");
        }
        for (name, v, n) in [
            ("from_u8", <f64 as Number>::from_u8(n), u64::from(n)),
            ("from_u32", <f64 as Number>::from_u32(h), u64::from(h)),
            ("from_u64", <f64 as Number>::from_u64(w), w),
            ("from_usize", <f64 as Number>::from_usize(w as usize), w),
        ] {
            ensure!(nearest_f64(v, n), "f64::{name} of {n} is {v}");
        }
        let (x, y) = (c.real, c.real as f32);
        ensure!(
            <f64 as Float>::from_f64(x).to_bits() == x.to_bits(),
            "f64::from_f64 of {x} is {}",
            <f64 as Float>::from_f64(x)
        );
        ensure!(
            <f32 as Float>::from_f32(y).to_bits() == y.to_bits(),
            "f32::from_f32 of {y} is {}",
            <f32 as Float>::from_f32(y)
        );
        ensure!(
            <f64 as Float>::from_f32(y) == f64::from(y),
            "f64::from_f32 of {y} is {}",
            <f64 as Float>::from_f32(y)
        );
        let v = <f32 as Float>::from_f64(x);
        if v.is_finite() {
            let distance = |v: f32| (f64::from(v) - x).abs();
            ensure!(
                distance(v) <= distance(v.next_up()) && distance(v) <= distance(v.next_down()),
                "f32::from_f64 of {x} is {v}"
            );
        } else {
            ensure!(
                x.abs() > f64::from(f32::MAX) && v.is_sign_positive() == (x > 0.0),
                "f32::from_f64 of {x} is {v}"
            );
        }
        let (low, high) = (i[1].min(i[2]), i[1].max(i[2]));
        Ok(pass(i[0] < low || i[0] > high, vec![]))
    }
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C22") => main_with(Laws),
        Some("C23") => main_with(Arithmetic),
        Some("C25") => main_with(Conversion),
        other => panic!("unknown property {other:?}"),
    }
}
