//! C08 to C10: colour conversions. C26: components and text forms.
use auto_palette::verif_hooks::color::{Lab, Rgba, D65, XYZ};
use auto_palette::verif_hooks::math::{Float, Number, Point2, Point3, Point5};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::driver::*;
use vharness::ensure;
use vharness::refcolor;

/// All colours with the given red and green, or one of them.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Block {
    r: u8,
    g: u8,
    b: Option<u8>,
}

impl Block {
    fn colors(&self) -> Vec<[u8; 3]> {
        match self.b {
            Some(b) => vec![[self.r, self.g, b]],
            None => (0..=255).map(|b| [self.r, self.g, b]).collect(),
        }
    }
    fn nth(i: usize) -> Self {
        Block {
            r: (i >> 8) as u8,
            g: i as u8,
            b: None,
        }
    }
}

fn f64_of<F: Float>(v: F) -> f64 {
    num_traits::ToPrimitive::to_f64(&v).expect("a float")
}

fn forward<F: Float>(c: [u8; 3], alpha: u8) -> Result<([f64; 3], [f64; 3]), String> {
    sut("conversion to Lab", || {
        let rgba = Rgba::new(c[0], c[1], c[2], alpha);
        let xyz: XYZ<F, D65> = XYZ::from(&rgba);
        let lab: Lab<F, D65> = Lab::from(&xyz);
        (
            [f64_of(xyz.x), f64_of(xyz.y), f64_of(xyz.z)],
            [f64_of(lab.l), f64_of(lab.a), f64_of(lab.b)],
        )
    })
}

// ------------------------------------------------------------------ C08

struct Accurate;

fn accurate<F: Float>(c: [u8; 3], kind: &str) -> Result<[f64; 3], String> {
    let (xyz, lab) = forward::<F>(c, 255)?;
    let raw = refcolor::rgb_to_xyz_raw(c);
    let clipped = raw
        .iter()
        .zip(refcolor::MAX_XYZ)
        .any(|(v, max)| *v > max - 1e-6);
    for k in 0..3 {
        // The white point is clipped to 1.088644 instead of 1.089058.
        let tolerance = if clipped { 5e-4 } else { 2e-6 };
        ensure!(
            (xyz[k] - raw[k]).abs() <= tolerance,
            "{kind}: XYZ of {c:?} is {xyz:?}, expected {raw:?}"
        );
    }
    let expected = refcolor::xyz_to_lab(raw);
    for k in 0..3 {
        let tolerance = if clipped { 0.05 } else { 0.01 };
        ensure!(
            (lab[k] - expected[k]).abs() <= tolerance,
            "{kind}: Lab of {c:?} is {lab:?}, expected {expected:?}"
        );
    }
    Ok(lab)
}

fn gray<F: Float>(v: u8, lab: [f64; 3], kind: &str) -> Result<(), String> {
    ensure!(
        lab[1].abs() <= 0.05 && lab[2].abs() <= 0.05,
        "{kind}: gray {v} is not neutral: {lab:?}"
    );
    if v > 0 {
        let (_, darker) = forward::<F>([v - 1; 3], 255)?;
        ensure!(
            darker[0] < lab[0],
            "{kind}: lightness does not grow from gray {} to {v}",
            v - 1
        );
    }
    Ok(())
}

impl Property for Accurate {
    type Case = Block;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "All 16,777,216 colors in both precisions against an independent double precision reference of the standards' formulas. Every color is non-trivial."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["The matrix and white point are the published constants to six digits."]
    }
    fn cases(&self, _: Tier) -> u32 {
        0
    }
    fn strategy(&self, _: Tier) -> Option<BoxedStrategy<Block>> {
        None
    }
    fn enumerated_len(&self, _: Tier) -> usize {
        1 << 16
    }
    fn enumerated(&self, _: Tier, i: usize) -> Block {
        Block::nth(i)
    }
    fn exhaustive(&self) -> bool {
        true
    }
    fn narrow(&self, case: &Block) -> Block {
        narrow(self, case)
    }
    fn check(&self, block: &Block) -> Check {
        let colors = block.colors();
        for &c in &colors {
            let double = accurate::<f64>(c, "f64")?;
            let single = accurate::<f32>(c, "f32")?;
            if c[0] == c[1] && c[1] == c[2] {
                gray::<f64>(c[0], double, "f64")?;
                gray::<f32>(c[0], single, "f32")?;
            }
        }
        Ok(Verdict::Pass {
            evaluations: colors.len() as u64,
            nontrivial: colors.len() as u64,
            labels: vec!["blocks of 256 colors"],
        })
    }
}

fn narrow<P: Property<Case = Block>>(p: &P, case: &Block) -> Block {
    (0..=255u8)
        .map(|b| Block {
            b: Some(b),
            ..case.clone()
        })
        .find(|c| !matches!(p.check(c), Ok(Verdict::Pass { .. })))
        .unwrap_or_else(|| case.clone())
}

// ------------------------------------------------------------------ C09

struct RoundTrip;

fn round_trip<F: Float>(c: [u8; 3], kind: &str) -> Result<(), String> {
    let rgba = Rgba::new(c[0], c[1], c[2], 255);
    let (direct, through) = sut("round trip", || {
        let xyz: XYZ<F, D65> = XYZ::from(&rgba);
        let direct = Rgba::from(&xyz);
        let lab: Lab<F, D65> = Lab::from(&xyz);
        let back: XYZ<F, D65> = XYZ::from(&lab);
        (direct, Rgba::from(&back))
    })
    .map_err(|m| format!("{kind}: {c:?}: {m}"))?;
    ensure!(direct == rgba, "{kind}: {c:?} to XYZ and back is {direct:?}");
    ensure!(
        through == rgba,
        "{kind}: {c:?} to Lab and back is {through:?}"
    );
    Ok(())
}

impl Property for RoundTrip {
    type Case = Block;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "All 16,777,216 colors in both precisions through XYZ and through Lab and back. Every color is non-trivial."
    }
    fn cases(&self, _: Tier) -> u32 {
        0
    }
    fn strategy(&self, _: Tier) -> Option<BoxedStrategy<Block>> {
        None
    }
    fn enumerated_len(&self, _: Tier) -> usize {
        1 << 16
    }
    fn enumerated(&self, _: Tier, i: usize) -> Block {
        Block::nth(i)
    }
    fn exhaustive(&self) -> bool {
        true
    }
    fn narrow(&self, case: &Block) -> Block {
        narrow(self, case)
    }
    fn check(&self, block: &Block) -> Check {
        let colors = block.colors();
        for &c in &colors {
            round_trip::<f64>(c, "f64")?;
            round_trip::<f32>(c, "f32")?;
        }
        Ok(Verdict::Pass {
            evaluations: colors.len() as u64,
            nontrivial: colors.len() as u64,
            labels: vec!["blocks of 256 colors"],
        })
    }
}

// ------------------------------------------------------------------ C10

struct Clipped;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Space {
    Lab,
    Xyz,
}

/// Components as multiples of 1/1000, which keeps shrinking and replay exact; `extreme` replaces
/// components by huge or infinite values.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ColorCase {
    space: Space,
    milli: [i32; 3],
    extreme: [u8; 3],
}

fn component(milli: i32, extreme: u8) -> f64 {
    match extreme {
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 1e30,
        4 => -1e30,
        5 => f64::from(milli) * 1e-12,
        6 => -0.0,
        _ => f64::from(milli) / 1000.0,
    }
}

fn bounds(space: Space) -> [[f64; 2]; 3] {
    match space {
        Space::Lab => [[0.0, 100.0], [-128.0, 127.0], [-128.0, 127.0]],
        Space::Xyz => refcolor::MAX_XYZ.map(|m| [0.0, m]),
    }
}

fn clipped<F: Float>(c: &ColorCase, single: bool) -> Result<bool, String> {
    let kind = if single { "f32" } else { "f64" };
    let input: [F; 3] = [0, 1, 2].map(|k| F::from_f64(component(c.milli[k], c.extreme[k])));
    let inputs = input.map(f64_of);
    let limits = bounds(c.space);
    // The colour as stored, and as clamped by the reference.
    let (stored, xyz, rgba) = sut("conversion to sRGB", || match c.space {
        Space::Lab => {
            let lab: Lab<F, D65> = Lab::new(input[0], input[1], input[2]);
            let xyz: XYZ<F, D65> = XYZ::from(&lab);
            let rgba = Rgba::from(&xyz);
            ([lab.l, lab.a, lab.b], [xyz.x, xyz.y, xyz.z], rgba)
        }
        Space::Xyz => {
            let xyz: XYZ<F, D65> = XYZ::new(input[0], input[1], input[2]);
            let rgba = Rgba::from(&xyz);
            ([xyz.x, xyz.y, xyz.z], [xyz.x, xyz.y, xyz.z], rgba)
        }
    })
    .map_err(|m| format!("{kind}: {inputs:?}: {m}"))?;
    let stored = stored.map(f64_of);
    let xyz = xyz.map(f64_of);
    for k in 0..3 {
        let [low, high] = limits[k].map(|v| f64_of(F::from_f64(v)));
        ensure!(
            stored[k] >= low && stored[k] <= high,
            "{kind}: component {k} of {inputs:?} is stored as {}",
            stored[k]
        );
        let expected = inputs[k].clamp(low, high);
        ensure!(
            stored[k] == expected,
            "{kind}: component {k} of {inputs:?} is stored as {}, expected {expected}",
            stored[k]
        );
        let high = f64_of(F::from_f64(refcolor::MAX_XYZ[k]));
        ensure!(
            xyz[k] >= 0.0 && xyz[k] <= high,
            "{kind}: {inputs:?} gives XYZ {xyz:?}"
        );
    }
    let exact = match c.space {
        Space::Lab => refcolor::clip_xyz(refcolor::lab_to_xyz_raw(stored)),
        Space::Xyz => stored,
    };
    let (xyz_tolerance, slack) = if single { (1e-5, 0.008) } else { (1e-9, 1e-6) };
    for k in 0..3 {
        ensure!(
            (xyz[k] - exact[k]).abs() <= xyz_tolerance,
            "{kind}: {inputs:?} gives XYZ {xyz:?}, expected {exact:?}"
        );
    }
    // The inverse transfer function is steep near black: judge sRGB from the stored XYZ.
    let raw = refcolor::xyz_to_rgb_raw(xyz);
    let got = [rgba.r, rgba.g, rgba.b];
    for k in 0..3 {
        let expected = raw[k].clamp(0.0, 255.0);
        ensure!(
            (f64::from(got[k]) - expected).abs() <= 0.5 + slack,
            "{kind}: {inputs:?} gives {rgba:?}, expected channels {raw:.3?} rounded and clipped"
        );
    }
    ensure!(rgba.a == 255, "{kind}: {inputs:?} gives {rgba:?}");
    Ok(raw.iter().any(|v| *v < -0.5 || *v >= 255.5))
}

impl Property for Clipped {
    type Case = ColorCase;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "Lab and XYZ components inside and outside of their ranges, tiny, huge and infinite, in both precisions, plus a regular grid over both spaces. Non-trivial: out of the sRGB gamut or out of a component's range."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["Not-a-number components are outside of the domain."]
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(12_000_000, 120_000_000)
    }
    fn strategy(&self, _: Tier) -> Option<BoxedStrategy<ColorCase>> {
        let extreme = || {
            prop_oneof![20 => Just(0u8), 1 => 1u8..7]
        };
        let lab = [-20_000i32..120_000, -200_000i32..200_000, -200_000i32..200_000];
        let inside = [0i32..100_001, -128_000i32..127_001, -128_000i32..127_001];
        let dark = [0i32..9_000, -8_000i32..8_000, -8_000i32..8_000];
        let xyz = [-300i32..1500, -300i32..1500, -300i32..1500];
        let low = [0i32..30, 0i32..30, 0i32..30];
        Some(
            (
                prop_oneof![
                    2 => lab.prop_map(|m| (Space::Lab, m)),
                    4 => inside.prop_map(|m| (Space::Lab, m)),
                    1 => dark.prop_map(|m| (Space::Lab, m)),
                    2 => xyz.prop_map(|m| (Space::Xyz, m)),
                    1 => low.prop_map(|m| (Space::Xyz, m)),
                ],
                [extreme(), extreme(), extreme()],
            )
                .prop_map(|((space, milli), extreme)| ColorCase {
                    space,
                    milli,
                    extreme,
                })
                .boxed(),
        )
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        2 * tier.pick(41usize, 151).pow(3)
    }
    fn enumerated(&self, tier: Tier, i: usize) -> ColorCase {
        let m = tier.pick(41usize, 151);
        let space = if i % 2 == 0 { Space::Lab } else { Space::Xyz };
        let j = i / 2;
        let limits = bounds(space);
        let milli = [j / (m * m), j / m % m, j % m];
        ColorCase {
            space,
            milli: [0, 1, 2].map(|k| {
                let [low, high] = limits[k];
                // From a little below to a little above the range.
                let t = milli[k] as f64 / (m - 1) as f64 * 1.05 - 0.025;
                ((low + (high - low) * t) * 1000.0).round() as i32
            }),
            extreme: [0; 3],
        }
    }
    fn check(&self, c: &ColorCase) -> Check {
        let out_of_gamut = clipped::<f64>(c, false)?;
        clipped::<f32>(c, true)?;
        let limits = bounds(c.space);
        let out_of_range = (0..3).any(|k| {
            let v = component(c.milli[k], c.extreme[k]);
            v < limits[k][0] || v > limits[k][1]
        });
        let mut labels = vec![match c.space {
            Space::Lab => "Lab",
            Space::Xyz => "XYZ",
        }];
        if out_of_gamut {
            labels.push("out of gamut");
        }
        if out_of_range {
            labels.push("out of range");
        }
        if !out_of_gamut && !out_of_range {
            labels.push("in gamut");
        }
        Ok(pass(out_of_gamut || out_of_range, labels))
    }
}

// ------------------------------------------------------------------ C26

/// Four bytes, and five numbers with a component to change.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Components {
    bytes: [u8; 4],
    change: u8,
    /// Index of the component to change.
    axis: usize,
    numbers: [f64; 5],
    other: f64,
}

struct Text;

/// The numbers in a text like "Name(1, 2.5)".
fn parse<T: std::str::FromStr>(text: &str, name: &str) -> Result<Vec<T>, String> {
    let list = text
        .strip_prefix(name)
        .and_then(|t| t.strip_prefix('('))
        .and_then(|t| t.strip_suffix(')'))
        .ok_or_else(|| format!("{text:?} is not of the form {name}(...)"))?;
    list.split(',')
        .map(|v| v.trim().parse().map_err(|_| format!("{v:?} in {text:?} is no number")))
        .collect()
}

fn reads<T: Number>(bytes: [u8; 4], expect: impl Fn(u8) -> T, name: &str) -> Result<(), String> {
    let c = Rgba::new(bytes[0], bytes[1], bytes[2], bytes[3]);
    let read = sut("reading components", || [c.r::<T>(), c.g::<T>(), c.b::<T>(), c.a::<T>()])?;
    ensure!(
        read == bytes.map(&expect),
        "the components of the color {bytes:?} as {name} are {read:?}"
    );
    let max = Rgba::max_value::<T>();
    ensure!(max == expect(255), "the greatest {name} component is {max:?}");
    Ok(())
}

/// `make` creates a value from its components, `text` prints it.
fn prints<F: Float + std::str::FromStr, V: Clone + PartialEq>(
    name: &str,
    v: &[F],
    changed: &[F],
    make: impl Fn(&[F]) -> V,
    text: impl Fn(&V) -> String,
) -> Result<(), String> {
    let value = make(v);
    let shown = sut("printing", || text(&value))?;
    let parsed: Vec<F> = parse(&shown, name)?;
    ensure!(parsed == v, "{name} of {v:?} prints as {shown:?}");
    ensure!(value == value.clone(), "{shown} differs from its copy");
    ensure!(value == make(v), "two values of {shown} differ");
    ensure!(
        (value == make(changed)) == (v == changed) && (make(changed) == value) == (v == changed),
        "comparing {name} of {v:?} and {changed:?} for equality is wrong"
    );
    Ok(())
}

fn texts<F>(c: &Components) -> Result<(), String>
where
    F: Float + std::str::FromStr + std::fmt::Display,
{
    let numbers = c.numbers.map(F::from_f64);
    let changed = |v: &[F], axis: usize| {
        let mut v = v.to_vec();
        let k = axis % v.len();
        v[k] = F::from_f64(c.other);
        v
    };
    for axis in 0..5 {
        let v = &numbers[..2];
        prints("Point2", v, &changed(v, axis), |v| Point2::new(v[0], v[1]), |p| p.to_string())?;
        let v = &numbers[..3];
        let make = |v: &[F]| Point3::new(v[0], v[1], v[2]);
        prints("Point3", v, &changed(v, axis), make, |p| p.to_string())?;
        let v = &numbers;
        let make = |v: &[F]| Point5::new(v[0], v[1], v[2], v[3], v[4]);
        prints("Point5", v, &changed(v, axis), make, |p| p.to_string())?;
    }
    // Components inside of the ranges.
    let within = |low: f64, high: f64, v: f64| {
        let t = (v.abs() / 100.0).fract();
        F::from_f64((low + t * (high - low)).clamp(low, high))
    };
    let n = c.numbers;
    let lab = [within(0.0, 100.0, n[0]), within(-128.0, 127.0, n[1]), within(-128.0, 127.0, n[2])];
    let xyz = [within(0.0, 0.95, n[0]), within(0.0, 1.0, n[1]), within(0.0, 1.08, n[2])];
    for axis in 0..3 {
        let other = |v: &[F; 3], low, high| {
            let mut v = v.to_vec();
            v[axis] = within(low, high, c.other);
            v
        };
        prints(
            "Lab",
            &lab,
            &other(&lab, 0.0, 100.0),
            |v| Lab::<F, D65>::new(v[0], v[1], v[2]),
            |p| p.to_string(),
        )?;
        prints(
            "XYZ",
            &xyz,
            &other(&xyz, 0.0, 0.95),
            |v| XYZ::<F, D65>::new(v[0], v[1], v[2]),
            |p| p.to_string(),
        )?;
    }
    Ok(())
}

impl Property for Text {
    type Case = Components;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "RGBA bytes and finite numbers of many magnitudes. Non-trivial: the four bytes are distinct, so that mistaking one for another shows."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(1_500_000, 20_000_000)
    }
    fn strategy(&self, _: Tier) -> Option<BoxedStrategy<Components>> {
        let number = || {
            prop_oneof![
                4 => -200.0f64..200.0,
                2 => (-300i32..301).prop_map(f64::from),
                2 => (-1.0f64..1.0, -60i32..60).prop_map(|(m, e)| m * 2f64.powi(e)),
                1 => Just(0.0),
                1 => Just(0.1),
            ]
        };
        let byte = || prop_oneof![6 => any::<u8>(), 1 => Just(0u8), 1 => Just(255)];
        (
            [byte(), byte(), byte(), byte()],
            byte(),
            0usize..4,
            [number(), number(), number(), number(), number()],
            number(),
        )
            .prop_map(|(bytes, change, axis, numbers, other)| Components {
                bytes,
                change,
                axis,
                numbers,
                other,
            })
            .boxed()
            .into()
    }
    fn check(&self, c: &Components) -> Check {
        let b = c.bytes;
        reads::<u8>(b, |v| v, "u8")?;
        reads::<u16>(b, u16::from, "u16")?;
        reads::<u32>(b, u32::from, "u32")?;
        reads::<u64>(b, u64::from, "u64")?;
        reads::<u128>(b, u128::from, "u128")?;
        reads::<f32>(b, f32::from, "f32")?;
        reads::<f64>(b, f64::from, "f64")?;
        let make = |b: [u8; 4]| Rgba::new(b[0], b[1], b[2], b[3]);
        let color = make(b);
        let text = sut("printing", || color.to_string())?;
        ensure!(parse::<u8>(&text, "Rgba")? == b, "the color {b:?} prints as {text:?}");
        let mut other = b;
        other[c.axis % 4] = c.change;
        ensure!(
            color == color.clone() && (color == make(other)) == (b == other),
            "comparing the colors {b:?} and {other:?} for equality is wrong"
        );
        texts::<f64>(c)?;
        texts::<f32>(c)?;
        let distinct = (0..4).all(|i| (0..i).all(|j| b[i] != b[j]));
        Ok(pass(distinct, vec![]))
    }
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C08") => main_with(Accurate),
        Some("C09") => main_with(RoundTrip),
        Some("C26") => main_with(Text),
        Some("C10") => main_with(Clipped),
        other => panic!("unknown property {other:?}"),
    }
}
