//! C01 to C07: palette extraction through the public API.
use auto_palette::image::ImageData;
use auto_palette::swatch::Swatch;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use vharness::driver::*;
use vharness::ensure;
use vharness::image_model::*;
use vharness::matching::unmatched;

trait AsF64 {
    fn f64(&self) -> f64;
}
impl AsF64 for f32 {
    fn f64(&self) -> f64 {
        f64::from(*self)
    }
}
impl AsF64 for f64 {
    fn f64(&self) -> f64 {
        *self
    }
}

macro_rules! extract {
    ($f:ty, $image:expr) => {
        $image
            .extract::<$f>()
            .iter()
            .map(|s: &Swatch<$f>| Flat {
                color: [s.color.0, s.color.1, s.color.2],
                position: s.position,
                percentage: s.percentage.f64(),
            })
            .collect::<Vec<Flat>>()
    };
}

fn from(image: &ImageData, single: bool) -> Result<Vec<Flat>, String> {
    sut("extract", || if single { extract!(f32, image) } else { extract!(f64, image) })
}

fn palette(data: &[u8], w: u32, h: u32, single: bool) -> Result<Vec<Flat>, String> {
    from(&ImageData::new(data, w, h), single)
}

fn size_label(image: &ImageSpec, out: &mut Vec<&'static str>) {
    if image.len() > 60_000 {
        out.push("over 60000 pixels");
    }
}

fn swatch_labels(n: usize, out: &mut Vec<&'static str>) {
    out.push(match n {
        0 => "palette: empty",
        1 => "palette: 1 swatch",
        2..=4 => "palette: 2-4 swatches",
        _ => "palette: 5+ swatches",
    });
}

// ------------------------------------------------------------------ C01

struct Total;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TotalCase {
    image: ImageSpec,
    single: bool,
}

impl Property for Total {
    type Case = TotalCase;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "Structured images (fills, gradients, stripes, layered areas, noise; lines, strips, planes and tiny or empty images) in both precisions. Non-trivial: the palette has at least one swatch, or the image has no pixel."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(2400, 20000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<TotalCase>> {
        // A gradient through saturated colours: means of such clusters leave the gamut.
        let vivid = (size(tier, false), color(), color(), color(), any::<bool>()).prop_map(
            |((w, h), a, b, c, three)| ImageSpec {
                w,
                h,
                base: Fill::Path(if three { vec![a, b, c] } else { vec![a, b] }),
                layers: vec![],
                noise: None,
                alpha: Alpha::Constant(255),
            },
        );
        // Mixtures of two close colours: clusters of a few colours anywhere in the cube.
        let pair = (size(tier, false), color(), any::<[i8; 3]>(), any::<u64>()).prop_map(
            |((w, h), a, d, seed)| {
                let b = [0, 1, 2].map(|k| {
                    (i32::from(a[k]) + i32::from(d[k]) / 16).clamp(0, 255) as u8
                });
                ImageSpec {
                    w,
                    h,
                    base: Fill::Scatter(vec![a, b], seed),
                    layers: vec![],
                    noise: None,
                    alpha: Alpha::Constant(255),
                }
            },
        );
        Some(
            (
                prop_oneof![4 => any_image(tier, false), 2 => vivid, 1 => pair],
                any::<bool>(),
            )
                .prop_map(|(image, single)| TotalCase { image, single })
                .boxed(),
        )
    }
    fn regressions(&self) -> Vec<TotalCase> {
        let empty = |w, h| ImageSpec {
            w,
            h,
            base: Fill::Solid([0; 3]),
            layers: vec![],
            noise: None,
            alpha: Alpha::Constant(255),
        };
        [(0, 0), (0, 7), (9, 0), (1, 1)]
            .into_iter()
            .flat_map(|(w, h)| [true, false].map(|single| TotalCase { image: empty(w, h), single }))
            .collect()
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(16, 56)
    }
    fn enumerated(&self, _tier: Tier, index: usize) -> Self::Case {
        TotalCase {
            image: large(index),
            single: index % 16 >= 8,
        }
    }
    fn check(&self, c: &TotalCase) -> Check {
        let (w, h) = (c.image.w, c.image.h);
        let data = c.image.render();
        let swatches = palette(&data, w, h, c.single)?;
        let n = c.image.len();
        if n == 0 {
            ensure!(swatches.is_empty(), "empty image gave {swatches:?}");
        }
        let mut total = 0.0;
        for s in &swatches {
            ensure!(
                s.percentage.is_finite() && s.percentage > 0.0 && s.percentage <= 1.0,
                "percentage out of range: {s:?}"
            );
            ensure!(
                s.position.0 < w && s.position.1 < h,
                "position outside of the {w}x{h} image: {s:?}"
            );
            total += s.percentage;
        }
        ensure!(total <= 1.0 + 1e-5, "percentages add up to {total}");
        let mut labels = vec![if c.single { "f32" } else { "f64" }];
        swatch_labels(swatches.len(), &mut labels);
        size_label(&c.image, &mut labels);
        if n == 0 {
            labels.push("no pixels");
        }
        Ok(pass(n == 0 || !swatches.is_empty(), labels))
    }
}

// ------------------------------------------------------------------ C02

struct Exact;

fn explain(a: &Analysis, swatches: &[Flat]) -> String {
    let mut s = String::from("expected groups:\n");
    for g in &a.groups {
        s += &format!("  {}\n", g.describe());
    }
    s += "palette:\n";
    for w in swatches {
        s += &format!("  {w:?} ({} pixels)\n", w.percentage * a.n as f64);
    }
    s
}

fn compare(a: &Analysis, swatches: &[Flat], tolerances: [f64; 3]) -> Result<(), String> {
    ensure!(
        a.groups.len() == swatches.len(),
        "{} swatches for {} groups\n{}",
        swatches.len(),
        a.groups.len(),
        explain(a, swatches)
    );
    let bad = unmatched(swatches.len(), |i, j| {
        a.groups[j].accepts(&swatches[i], a.n, tolerances)
    });
    if let Some(i) = bad {
        return Err(format!(
            "no group fits swatch {:?}\n{}",
            swatches[i],
            explain(a, swatches)
        ));
    }
    let covered: f64 = swatches.iter().map(|s| s.percentage * a.n as f64).sum();
    ensure!(
        (covered - (a.n - a.outliers) as f64).abs() < 1e-6 * a.n as f64 + 0.01,
        "swatches cover {covered} pixels, the groups {}",
        a.n - a.outliers
    );
    Ok(())
}

impl Property for Exact {
    type Case = ImageSpec;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "Structured images without pixel distances within 1e-9 of the radius, in double precision and, unless distances are within 3e-6 of it, in single precision; oracle: brute-force density clustering over an independent color conversion. Non-trivial: at least two groups, or a group together with pixels in no group."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["A pixel reachable from several groups may be counted for any one of them."]
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(2000, 16000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<ImageSpec>> {
        Some(any_image(tier, true))
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(8, 56)
    }
    fn enumerated(&self, _tier: Tier, index: usize) -> Self::Case {
        large(index)
    }
    fn check(&self, c: &ImageSpec) -> Check {
        let rgb = c.render_rgb();
        let a = analyze(c.w, c.h, &rgb, 3e-6);
        if a.gap < 1e-9 {
            return Ok(Verdict::Discard("a distance coincides with the radius"));
        }
        let data = with_alpha(&rgb, &c.alpha);
        let swatches = palette(&data, c.w, c.h, false)?;
        compare(&a, &swatches, [1e-14, 0.05, 0.001])?;
        let mut labels = vec![];
        if !a.ambiguous {
            // No distance within rounding error of the radius in single precision.
            let single = palette(&data, c.w, c.h, true)?;
            let shift = 0.01 + 2e-6 * f64::from(c.w.max(c.h));
            compare(&a, &single, [3e-7, 0.15, shift]).map_err(|m| format!("f32: {m}"))?;
            labels.push("both precisions");
        }
        swatch_labels(swatches.len(), &mut labels);
        size_label(c, &mut labels);
        labels.push(if c.w == 1 || c.h == 1 { "line" } else { "plane" });
        if a.shared {
            labels.push("shared pixels");
        }
        if a.outliers > 0 {
            labels.push("outliers");
        }
        Ok(pass(
            a.groups.len() >= 2 || (!a.groups.is_empty() && a.outliers > 0),
            labels,
        ))
    }
}

// ------------------------------------------------------------------ C03

struct Deterministic;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HistoryCase {
    images: Vec<ImageSpec>,
    /// Extractions in the main thread: the two low bits choose the image, the next three how far
    /// into its buffer the pixels start, the next one the extraction from an image made before, the
    /// highest one the other precision.
    history: Vec<u8>,
    threads: u8,
    process: bool,
    single: bool,
}

fn fingerprint(swatches: &[Flat]) -> String {
    format!("{swatches:?}")
}

impl Property for Deterministic {
    type Case = HistoryCase;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "One to three images, a history of repeated extractions in both precisions from copies at different addresses, concurrent extractions in several threads and extraction in a fresh process, all compared exactly. Non-trivial: some palette has at least two swatches."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(640, 6000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<HistoryCase>> {
        let image = prop_oneof![2 => striped_image(tier, false), 1 => image(tier, false)];
        Some(
            (
                proptest::collection::vec(image, 1..3),
                proptest::collection::vec(any::<u8>(), 1..6),
                0u8..4,
                proptest::bool::weighted(0.2),
                any::<bool>(),
            )
                .prop_map(|(images, history, threads, process, single)| HistoryCase {
                    images,
                    history,
                    threads,
                    process,
                    single,
                })
                .boxed(),
        )
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(7, 28)
    }
    fn enumerated(&self, _tier: Tier, index: usize) -> HistoryCase {
        HistoryCase {
            images: vec![large(index)],
            history: vec![4 * (1 + index as u8 % 7), 0x40, 0x40],
            threads: 2,
            process: index % 3 == 0,
            single: index % 2 == 1,
        }
    }
    fn check(&self, c: &HistoryCase) -> Check {
        let data: Vec<Vec<u8>> = c.images.iter().map(ImageSpec::render).collect();
        let extract = |i: usize, single: bool, offset: usize| {
            let mut shifted = vec![0xA5; offset];
            shifted.extend_from_slice(&data[i]);
            palette(&shifted[offset..], c.images[i].w, c.images[i].h, single)
        };
        let get = |i: usize| palette(&data[i], c.images[i].w, c.images[i].h, c.single);
        let first: Vec<Vec<Flat>> = (0..data.len()).map(get).collect::<Result<_, _>>()?;
        let made: Vec<ImageData> = data
            .iter()
            .zip(&c.images)
            .map(|(d, i)| ImageData::new(d, i.w, i.h))
            .collect();
        for (i, image) in made.iter().enumerate() {
            ensure!(
                (image.width, image.height) == (c.images[i].w, c.images[i].h),
                "the size of image {i} is {}x{}", image.width, image.height
            );
        }
        let mut other: Vec<Option<Vec<Flat>>> = vec![None; data.len()];
        for (step, &h) in c.history.iter().enumerate() {
            let (i, offset) = ((h & 3) as usize % data.len(), (h >> 2 & 7) as usize);
            let swapped = h & 0x80 != 0;
            let again = if h & 0x40 != 0 {
                from(&made[i], c.single != swapped)?
            } else {
                extract(i, c.single != swapped, offset)?
            };
            let before = if swapped {
                other[i].get_or_insert_with(|| again.clone())
            } else {
                &first[i]
            };
            ensure!(
                again == *before,
                "step {step}: image {i} first gave {before:?}, then {again:?} from a copy {offset} bytes into a buffer",
            );
        }
        let concurrent: Vec<Result<Vec<Flat>, String>> = std::thread::scope(|s| {
            let handles: Vec<_> = (0..c.threads as usize)
                .map(|t| s.spawn(move || get(t % c.images.len())))
                .collect();
            handles.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (t, r) in concurrent.into_iter().enumerate() {
            let (i, r) = (t % data.len(), r?);
            ensure!(
                r == first[i],
                "thread {t}: image {i} first gave {:?}, then {r:?}",
                first[i]
            );
        }
        if c.process {
            let out = std::process::Command::new(std::env::current_exe().unwrap())
                .arg("--child")
                .arg(serde_json::to_string(&(&c.images[0], c.single)).unwrap())
                .output()
                .expect("child process");
            let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
            ensure!(
                text == fingerprint(&first[0]),
                "another process gives {text}, this one {}",
                fingerprint(&first[0])
            );
        }
        for (spec, d) in c.images.iter().zip(&data) {
            ensure!(*d == spec.render(), "input buffer changed");
        }
        let most = first.iter().map(Vec::len).max().unwrap_or(0);
        let mut labels = vec![];
        swatch_labels(most, &mut labels);
        if c.threads > 1 {
            labels.push("concurrent");
        }
        if c.process {
            labels.push("fresh process");
        }
        let ties = first.iter().any(|p| {
            p.windows(2)
                .any(|w| w[0].percentage == w[1].percentage && w[0].color != w[1].color)
        });
        if ties {
            labels.push("swatches with equal percentage");
        }
        for i in &c.images {
            size_label(i, &mut labels);
        }
        Ok(pass(most >= 2, labels))
    }
}

// ------------------------------------------------------------------ C04

struct Ordered;
#[derive(Clone, Debug, Serialize, Deserialize)]
enum OrderCase {
    Palette(ImageSpec, bool),
    Swatches(Vec<([u8; 3], (u32, u32), f64)>),
}

macro_rules! check_swatches {
    ($f:ty, $list:expr) => {{
        let list: Vec<Swatch<$f>> = $list
            .iter()
            .map(|(c, p, v)| Swatch {
                color: (c[0], c[1], c[2]),
                position: *p,
                percentage: *v as $f,
            })
            .collect();
        for a in &list {
            for b in &list {
                let expected = a.percentage.partial_cmp(&b.percentage).unwrap();
                let got = sut("cmp", || a.cmp(b))?;
                ensure!(got == expected, "cmp of {a:?} and {b:?} is {got:?}");
                ensure!(
                    a.partial_cmp(b) == Some(expected),
                    "partial_cmp of {a:?} and {b:?} is {:?}",
                    a.partial_cmp(b)
                );
                ensure!(
                    (a < b) == (expected == Ordering::Less)
                        && (a > b) == (expected == Ordering::Greater)
                        && (a <= b) == (expected != Ordering::Greater)
                        && (a >= b) == (expected != Ordering::Less),
                    "operators on {a:?} and {b:?} disagree with cmp"
                );
                ensure!(b.cmp(a) == expected.reverse(), "cmp is not antisymmetric");
                ensure!(
                    a.clone().max(b.clone()).percentage == a.percentage.max(b.percentage)
                        && a.clone().min(b.clone()).percentage == a.percentage.min(b.percentage),
                    "min or max of {a:?} and {b:?} is wrong"
                );
                let same = a.color == b.color
                    && a.position == b.position
                    && a.percentage == b.percentage;
                ensure!((a == b) == same, "equality of {a:?} and {b:?}");
            }
        }
        let mut sorted = list.clone();
        sut("sort", || sorted.sort())?;
        ensure!(
            sorted.windows(2).all(|w| w[0].percentage <= w[1].percentage),
            "sort gave {sorted:?}"
        );
        let mut expected: Vec<usize> = (0..list.len()).collect();
        expected.sort_by(|&i, &j| {
            list[i]
                .percentage
                .partial_cmp(&list[j].percentage)
                .unwrap()
        });
        ensure!(
            expected.iter().map(|&i| &list[i]).eq(sorted.iter()),
            "stable sort moved swatches of equal percentage"
        );
        list.len()
    }};
}

impl Property for Ordered {
    type Case = OrderCase;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "Palettes of structured images in both precisions, and lists of arbitrary swatches compared pairwise with the order of their percentages. Non-trivial: at least two swatches."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(3000, 24000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<OrderCase>> {
        let value = prop_oneof![
            3 => 0.0f64..=1.0,
            2 => (0u8..5).prop_map(|v| f64::from(v) / 4.0),
            1 => prop_oneof![Just(-0.0), Just(0.0), Just(1e-30), Just(f64::from(f32::MAX))],
        ];
        let swatch = (
            color(),
            prop_oneof![(0u32..3, 0u32..3), any::<(u32, u32)>()],
            value,
        );
        Some(
            prop_oneof![
                1 => (striped_image(tier, false), any::<bool>()).prop_map(|(i, s)| OrderCase::Palette(i, s)),
                2 => proptest::collection::vec(swatch, 0..40).prop_map(OrderCase::Swatches),
            ]
            .boxed(),
        )
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(16, 56)
    }
    fn enumerated(&self, _tier: Tier, index: usize) -> OrderCase {
        OrderCase::Palette(large(index), index % 16 >= 8)
    }
    fn check(&self, c: &OrderCase) -> Check {
        match c {
            OrderCase::Palette(i, single) => {
                let p = palette(&i.render(), i.w, i.h, *single)?;
                ensure!(
                    p.windows(2).all(|w| w[0].percentage <= w[1].percentage),
                    "palette is not sorted by percentage: {p:?}"
                );
                let distinct = p.windows(2).any(|w| w[0].percentage != w[1].percentage);
                let mut labels = vec!["palette"];
                swatch_labels(p.len(), &mut labels);
                size_label(i, &mut labels);
                Ok(pass(distinct, labels))
            }
            OrderCase::Swatches(list) => {
                let n = check_swatches!(f64, list);
                check_swatches!(f32, list);
                Ok(pass(n >= 2, vec!["swatch list"]))
            }
        }
    }
}

// ------------------------------------------------------------------ C05

struct AlphaBlind;

impl Property for AlphaBlind {
    type Case = (ImageSpec, Alpha, bool);
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "Structured images extracted with two different assignments of alpha values. Non-trivial: at least one swatch and different alpha bytes."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(1200, 10000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<Self::Case>> {
        let one = (any_image(tier, false), varied_alpha());
        Some((one, varied_alpha(), any::<bool>()).prop_map(|((i, a), b, s)| (ImageSpec { alpha: a, ..i }, b, s)).boxed())
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(8, 28)
    }
    fn enumerated(&self, _tier: Tier, index: usize) -> Self::Case {
        let seed = mix(5, index as u64);
        let mut image = large(index);
        image.alpha = [Alpha::Random(seed), Alpha::Last(7, 0), Alpha::Ramp][index / 7 % 3].clone();
        (image, [Alpha::First(3), Alpha::Sparse(seed, 9)][index % 2].clone(), index % 4 == 1)
    }
    fn check(&self, (image, other, single): &Self::Case) -> Check {
        let rgb = image.render_rgb();
        let (opaque, clear) = (Alpha::Constant(255), Alpha::Constant(0));
        let alphas = [&opaque, &clear, &image.alpha, other];
        let mut first: Option<(Vec<u8>, Vec<Flat>)> = None;
        let (mut changed, mut labels) = (false, vec![]);
        for a in alphas {
            let data = with_alpha(&rgb, a);
            let got = match &first {
                Some((d, _)) if *d == data => continue,
                _ => palette(&data, image.w, image.h, *single)?,
            };
            match &first {
                None => first = Some((data, got)),
                Some((_, p)) => {
                    changed = true;
                    ensure!(*p == got, "{p:?} when opaque, {got:?} with {a:?}");
                }
            }
        }
        let opaque = first.unwrap().1;
        swatch_labels(opaque.len(), &mut labels);
        size_label(image, &mut labels);
        for a in [&image.alpha, other] {
            labels.push(match a {
                Alpha::Constant(_) => "constant",
                Alpha::Ramp => "ramp",
                Alpha::Random(_) => "random",
                Alpha::Sparse(..) => "sparse",
                Alpha::First(_) => "all but some clear at the start",
                Alpha::Last(..) => "all but some opaque at the end",
                Alpha::ByColor(_) => "by color",
                Alpha::Regions(..) => "by region",
            });
        }
        Ok(pass(changed && !opaque.is_empty(), labels))
    }
}

// ------------------------------------------------------------------ C06

struct Symmetric;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Symmetry {
    MirrorX,
    MirrorY,
    HalfTurn,
    Transpose,
}

impl Property for Symmetric {
    type Case = (ImageSpec, Symmetry);
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "Structured images without boundary distances and without pixels shared between groups, against their mirrored, rotated or transposed version. Non-trivial: at least one swatch."
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(1600, 14000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<Self::Case>> {
        let symmetry = prop_oneof![
            Just(Symmetry::MirrorX),
            Just(Symmetry::MirrorY),
            Just(Symmetry::HalfTurn),
            Just(Symmetry::Transpose)
        ];
        Some((any_image(tier, true), symmetry).boxed())
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(8, 56)
    }
    fn enumerated(&self, _tier: Tier, index: usize) -> Self::Case {
        (large(index), [Symmetry::MirrorX, Symmetry::MirrorY, Symmetry::HalfTurn, Symmetry::Transpose][(index + index / 8) % 4])
    }
    fn check(&self, (image, symmetry): &Self::Case) -> Check {
        let (w, h) = (image.w, image.h);
        let rgb = image.render_rgb();
        let a = analyze(w, h, &rgb, 3e-6);
        if a.gap < 1e-9 {
            return Ok(Verdict::Discard("a distance coincides with the radius"));
        }
        if a.shared {
            return Ok(Verdict::Discard("a pixel is shared between groups"));
        }
        let at = |x: u32, y: u32| rgb[y as usize * w as usize + x as usize];
        let (nw, nh) = match symmetry {
            Symmetry::Transpose => (h, w),
            _ => (w, h),
        };
        let mut moved = Vec::with_capacity(rgb.len());
        for y in 0..nh {
            for x in 0..nw {
                moved.push(match symmetry {
                    Symmetry::MirrorX => at(w - 1 - x, y),
                    Symmetry::MirrorY => at(x, h - 1 - y),
                    Symmetry::HalfTurn => at(w - 1 - x, h - 1 - y),
                    Symmetry::Transpose => at(y, x),
                });
            }
        }
        // In single precision unless distances are within rounding error of the radius.
        let single = !a.ambiguous && image.len() % 2 == 1;
        let before = palette(&with_alpha(&rgb, &image.alpha), w, h, single)?;
        let after = palette(&with_alpha(&moved, &image.alpha), nw, nh, single)?;
        ensure!(
            before.len() == after.len(),
            "{symmetry:?}: {before:?} becomes {after:?}"
        );
        // Positions are means rounded to a pixel, at worst by one.
        let near = |got: u32, expected: i64| (i64::from(got) - expected).abs() <= 2;
        let bad = unmatched(before.len(), |i, j| {
            let (p, q) = (&before[i], &after[j]);
            let (x, y) = (i64::from(p.position.0), i64::from(p.position.1));
            let (mx, my) = (i64::from(w) - 1 - x, i64::from(h) - 1 - y);
            let (ex, ey) = match symmetry {
                Symmetry::MirrorX => (mx, y),
                Symmetry::MirrorY => (x, my),
                Symmetry::HalfTurn => (mx, my),
                Symmetry::Transpose => (y, x),
            };
            (p.percentage - q.percentage).abs() < if single { 1e-7 } else { 1e-9 }
                && (0..3).all(|k| p.color[k].abs_diff(q.color[k]) <= 1)
                && near(q.position.0, ex)
                && near(q.position.1, ey)
        });
        if let Some(i) = bad {
            return Err(format!(
                "{symmetry:?}: no counterpart of {:?}; {before:?} becomes {after:?}",
                before[i]
            ));
        }
        let mut labels = vec![match symmetry {
            Symmetry::MirrorX => "mirror x",
            Symmetry::MirrorY => "mirror y",
            Symmetry::HalfTurn => "half turn",
            Symmetry::Transpose => "transpose",
        }];
        labels.push(if single { "f32" } else { "f64" });
        swatch_labels(before.len(), &mut labels);
        size_label(image, &mut labels);
        Ok(pass(!before.is_empty(), labels))
    }
}

// ------------------------------------------------------------------ C07

struct Precisions;

impl Property for Precisions {
    type Case = ImageSpec;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "Structured images without pixel distances within 3e-6 of the radius, extracted in both precisions. Non-trivial: at least one swatch."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["Pixels shared between groups are outside of the comparison; such images are discarded."]
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(2400, 20000)
    }
    fn strategy(&self, tier: Tier) -> Option<BoxedStrategy<ImageSpec>> {
        Some(any_image(tier, true))
    }
    fn enumerated_len(&self, tier: Tier) -> usize {
        tier.pick(8, 56)
    }
    fn enumerated(&self, _tier: Tier, index: usize) -> Self::Case {
        large(index)
    }
    fn check(&self, c: &ImageSpec) -> Check {
        let rgb = c.render_rgb();
        let a = analyze(c.w, c.h, &rgb, 3e-6);
        if a.ambiguous {
            return Ok(Verdict::Discard("a distance is too close to the radius"));
        }
        if a.shared {
            return Ok(Verdict::Discard("a pixel is shared between groups"));
        }
        let data = with_alpha(&rgb, &c.alpha);
        let double = palette(&data, c.w, c.h, false)?;
        let single = palette(&data, c.w, c.h, true)?;
        ensure!(
            double.len() == single.len(),
            "f64 gives {double:?}, f32 gives {single:?}"
        );
        let n = a.n as f64;
        let bad = unmatched(double.len(), |i, j| {
            let (p, q) = (&double[i], &single[j]);
            (p.percentage * n).round() == (q.percentage * n).round()
                && (p.percentage * n - q.percentage * n).abs() < 0.01
                && (0..3).all(|k| p.color[k].abs_diff(q.color[k]) <= 1)
                && p.position.0.abs_diff(q.position.0) <= 1
                && p.position.1.abs_diff(q.position.1) <= 1
        });
        if let Some(i) = bad {
            return Err(format!(
                "no f32 counterpart of {:?}; f64 gives {double:?}, f32 gives {single:?}",
                double[i]
            ));
        }
        let mut labels = vec![];
        swatch_labels(double.len(), &mut labels);
        size_label(c, &mut labels);
        Ok(pass(!double.is_empty(), labels))
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "--child" => {
            let (image, single): (ImageSpec, bool) = serde_json::from_str(&args[2]).unwrap();
            match palette(&image.render(), image.w, image.h, single) {
                Ok(p) => println!("{}", fingerprint(&p)),
                Err(m) => println!("{m}"),
            }
        }
        "C01" => main_with(Total),
        "C02" => main_with(Exact),
        "C03" => main_with(Deterministic),
        "C04" => main_with(Ordered),
        "C05" => main_with(AlphaBlind),
        "C06" => main_with(Symmetric),
        "C07" => main_with(Precisions),
        other => panic!("unknown property {other}"),
    }
}
