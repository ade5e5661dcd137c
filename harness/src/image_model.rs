//! Structured images and a reference for the clusters of their pixels.
use crate::driver::Tier;
use crate::refcolor;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const EPSILON: f64 = 0.025;
pub const MIN_POINTS: usize = 25;

pub type Rgb = [u8; 3];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fill {
    Solid(Rgb),
    /// Linear gradient along x (0), y (1) or both.
    Gradient(Rgb, Rgb, u8),
    /// Piecewise gradient through several colours along the longer side.
    Path(Vec<Rgb>),
    /// Colours at the four corners, interpolated.
    Corners([Rgb; 4]),
    /// Stripes of the given width across x (0) or y (1).
    Stripes(Vec<Rgb>, u16, u8),
    Checker(Rgb, Rgb, u16),
    /// Colours around a centre, at most `spread` away in each channel.
    Noise(Rgb, u8, u64),
    /// Every pixel one of the given colours.
    Scatter(Vec<Rgb>, u64),
    /// A mosaic with the given number of columns and rows.
    Cells(Vec<Rgb>, u16, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Layer {
    /// x0, y0, width and height in 1/1000 of the image.
    pub area: [u16; 4],
    pub fill: Fill,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Alpha {
    Constant(u8),
    Ramp,
    Random(u64),
    /// Only some pixels are not opaque.
    Sparse(u64, u8),
    /// The given number of pixels at the start are opaque, all others clear.
    First(u32),
    /// The given number of pixels at the end have that value, all others are opaque.
    Last(u32, u8),
    /// A function of the color.
    ByColor(u64),
    /// One value for each of four areas.
    Regions([u8; 4]),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ImageSpec {
    pub w: u32,
    pub h: u32,
    pub base: Fill,
    pub layers: Vec<Layer>,
    /// Share of pixels in 1/1000 replaced by arbitrary colours.
    pub noise: Option<(u16, u64)>,
    pub alpha: Alpha,
}

pub fn mix(seed: u64, i: u64) -> u64 {
    let mut z = seed ^ i.wrapping_add(1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn lerp(a: Rgb, b: Rgb, t: f64) -> Rgb {
    [0, 1, 2].map(|i| (f64::from(a[i]) + (f64::from(b[i]) - f64::from(a[i])) * t).round() as u8)
}

impl Fill {
    fn at(&self, x: u32, y: u32, w: u32, h: u32) -> Rgb {
        let fx = if w > 1 { f64::from(x) / f64::from(w - 1) } else { 0.0 };
        let fy = if h > 1 { f64::from(y) / f64::from(h - 1) } else { 0.0 };
        let i = u64::from(y) * u64::from(w) + u64::from(x);
        match self {
            Fill::Solid(c) => *c,
            Fill::Gradient(a, b, axis) => lerp(
                *a,
                *b,
                match axis {
                    0 => fx,
                    1 => fy,
                    _ => (fx + fy) / 2.0,
                },
            ),
            Fill::Path(colors) => {
                let t = if w >= h { fx } else { fy };
                if colors.len() < 2 {
                    return colors.first().copied().unwrap_or([0; 3]);
                }
                let s = t * (colors.len() - 1) as f64;
                let k = (s.floor() as usize).min(colors.len() - 2);
                lerp(colors[k], colors[k + 1], s - k as f64)
            }
            Fill::Corners(c) => lerp(lerp(c[0], c[1], fx), lerp(c[2], c[3], fx), fy),
            Fill::Stripes(colors, width, axis) => {
                let v = if *axis == 0 { x } else { y };
                colors[(v / u32::from(*width).max(1)) as usize % colors.len()]
            }
            Fill::Checker(a, b, cell) => {
                let c = u32::from(*cell).max(1);
                if (x / c + y / c) % 2 == 0 {
                    *a
                } else {
                    *b
                }
            }
            Fill::Noise(center, spread, seed) => {
                let r = mix(*seed, i);
                let s = i32::from(*spread);
                [0, 1, 2].map(|k| {
                    let d = ((r >> (16 * k)) & 0xffff) as i32 % (2 * s + 1) - s;
                    (i32::from(center[k]) + d).clamp(0, 255) as u8
                })
            }
            Fill::Scatter(colors, seed) => colors[mix(*seed, i) as usize % colors.len()],
            Fill::Cells(colors, columns, rows) => {
                let cx = u64::from(x) * u64::from(*columns) / u64::from(w);
                let cy = u64::from(y) * u64::from(*rows) / u64::from(h);
                colors[(cx + 5 * cy) as usize % colors.len()]
            }
        }
    }
}

impl ImageSpec {
    pub fn len(&self) -> usize {
        self.w as usize * self.h as usize
    }

    pub fn render_rgb(&self) -> Vec<Rgb> {
        let (w, h) = (self.w, self.h);
        let mut out = Vec::with_capacity(self.len());
        let areas: Vec<[u32; 4]> = self
            .layers
            .iter()
            .map(|l| {
                let [x, y, lw, lh] = l.area.map(u32::from);
                let (x0, y0) = (x * w / 1000, y * h / 1000);
                [x0, y0, (lw * w / 1000).max(1), (lh * h / 1000).max(1)]
            })
            .collect();
        for y in 0..h {
            for x in 0..w {
                let mut c = self.base.at(x, y, w, h);
                for (layer, &[x0, y0, lw, lh]) in self.layers.iter().zip(&areas) {
                    if x >= x0 && y >= y0 && x - x0 < lw && y - y0 < lh {
                        c = layer.fill.at(x - x0, y - y0, lw, lh);
                    }
                }
                if let Some((share, seed)) = self.noise {
                    let r = mix(seed, u64::from(y) * u64::from(w) + u64::from(x));
                    if r % 1000 < u64::from(share) {
                        c = [(r >> 40) as u8, (r >> 48) as u8, (r >> 56) as u8];
                    }
                }
                out.push(c);
            }
        }
        out
    }

    pub fn render(&self) -> Vec<u8> {
        with_alpha(&self.render_rgb(), &self.alpha)
    }
}

pub fn with_alpha(rgb: &[Rgb], alpha: &Alpha) -> Vec<u8> {
    let mut out = Vec::with_capacity(rgb.len() * 4);
    let n = rgb.len();
    for (i, c) in rgb.iter().enumerate() {
        let a = match alpha {
            Alpha::Constant(a) => *a,
            Alpha::Ramp => (i % 256) as u8,
            Alpha::Random(seed) => mix(*seed, i as u64) as u8,
            Alpha::Sparse(seed, a) => {
                if mix(*seed, i as u64) % 7 == 0 {
                    *a
                } else {
                    255
                }
            }
            Alpha::First(k) => if i < *k as usize { 255 } else { 0 },
            Alpha::Last(k, a) => if n - i <= *k as usize { *a } else { 255 },
            Alpha::ByColor(seed) => mix(*seed, u64::from_be_bytes([0, 0, 0, 0, 0, c[0], c[1], c[2]])) as u8,
            Alpha::Regions(a) => a[4 * i / n],
        };
        out.extend_from_slice(&[c[0], c[1], c[2], a]);
    }
    out
}

/// Parallel-free reference: density clusters of the pixels.
pub struct Analysis {
    pub n: usize,
    pub groups: Vec<Group>,
    pub outliers: usize,
    /// Some distance lies within the given band around the radius.
    pub ambiguous: bool,
    /// How close to the radius the closest distance within the band is (infinite if none).
    pub gap: f64,
    /// Some non-dense pixel could join several groups.
    pub shared: bool,
}

pub struct Group {
    /// Members that can only belong to this group.
    pub fixed: usize,
    /// Sums of L, a, b, x and y over them.
    pub sum: [f64; 5],
    /// L, a, b, x and y of the pixels that could also join another group.
    pub shared: Vec<[f64; 5]>,
}

pub fn analyze(w: u32, h: u32, rgb: &[Rgb], band: f64) -> Analysis {
    let n = rgb.len();
    let (wf, hf) = (f64::from(w), f64::from(h));
    let mut cache = std::collections::HashMap::new();
    let raw: Vec<[f64; 5]> = rgb
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let lab: [f64; 3] = *cache.entry(*c).or_insert_with(|| refcolor::rgb_to_lab(*c));
            [
                lab[0],
                lab[1],
                lab[2],
                (i % w.max(1) as usize) as f64,
                (i / w.max(1) as usize) as f64,
            ]
        })
        .collect();
    let points: Vec<[f64; 5]> = raw
        .iter()
        .map(|p| [p[0] / 100.0, p[1] / 255.0, p[2] / 255.0, p[3] / wf, p[4] / hf])
        .collect();
    let rx = (EPSILON * wf + 1e-6).floor() as i64;
    let ry = (EPSILON * hf + 1e-6).floor() as i64;
    let mut gap = f64::INFINITY;
    let (lo2, hi2) = ((EPSILON - band).powi(2), (EPSILON + band).powi(2));
    // Large images have too many neighbors to keep them all.
    let window = ((2 * rx + 1) * (2 * ry + 1)) as usize;
    let keep = n.saturating_mul(window) <= 20_000_000;
    let visit = |i: usize, out: &mut Vec<u32>| -> f64 {
        let mut gap = f64::INFINITY;
        out.clear();
        let (x, y) = (i as i64 % i64::from(w), i as i64 / i64::from(w));
        for yy in (y - ry).max(0)..=(y + ry).min(i64::from(h) - 1) {
            for xx in (x - rx).max(0)..=(x + rx).min(i64::from(w) - 1) {
                let j = (yy * i64::from(w) + xx) as usize;
                let d2: f64 = (0..5).map(|k| (points[i][k] - points[j][k]).powi(2)).sum();
                if d2 <= hi2 {
                    if d2 >= lo2 {
                        gap = gap.min((d2.sqrt() - EPSILON).abs());
                    }
                    if d2 <= EPSILON * EPSILON {
                        out.push(j as u32);
                    }
                }
            }
        }
        gap
    };
    let mut lists: Vec<Vec<u32>> = vec![Vec::new(); if keep { n } else { 0 }];
    let mut core = vec![false; n];
    let mut list = vec![];
    for i in 0..n {
        gap = gap.min(visit(i, &mut list));
        core[i] = list.len() >= MIN_POINTS;
        if keep {
            lists[i].clone_from(&list);
        }
    }
    let around = |i: usize, list: &mut Vec<u32>| {
        if keep {
            list.clone_from(&lists[i]);
        } else {
            visit(i, list);
        }
    };
    let mut group = vec![usize::MAX; n];
    let mut count = 0;
    let mut stack = vec![];
    for i in 0..n {
        if !core[i] || group[i] != usize::MAX {
            continue;
        }
        group[i] = count;
        stack.push(i);
        while let Some(j) = stack.pop() {
            around(j, &mut list);
            for &k in &list {
                let k = k as usize;
                if core[k] && group[k] == usize::MAX {
                    group[k] = count;
                    stack.push(k);
                }
            }
        }
        count += 1;
    }
    let mut groups: Vec<Group> = (0..count)
        .map(|_| Group {
            fixed: 0,
            sum: [0.0; 5],
            shared: vec![],
        })
        .collect();
    let (mut outliers, mut any_shared) = (0, false);
    for i in 0..n {
        let mut of: Vec<usize> = if core[i] {
            vec![group[i]]
        } else {
            around(i, &mut list);
            list.iter()
                .filter(|&&j| core[j as usize])
                .map(|&j| group[j as usize])
                .collect()
        };
        of.sort_unstable();
        of.dedup();
        match of.len() {
            0 => outliers += 1,
            1 => {
                let g = &mut groups[of[0]];
                g.fixed += 1;
                for k in 0..5 {
                    g.sum[k] += raw[i][k];
                }
            }
            _ => {
                any_shared = true;
                for g in of {
                    groups[g].shared.push(raw[i]);
                }
            }
        }
    }
    Analysis {
        n,
        groups,
        outliers,
        ambiguous: gap.is_finite(),
        gap,
        shared: any_shared,
    }
}

/// A swatch independent of the float type.
#[derive(Clone, Debug, PartialEq)]
pub struct Flat {
    pub color: Rgb,
    pub position: (u32, u32),
    pub percentage: f64,
}

impl Group {
    /// Could this swatch stand for this group? `share` is the relative tolerance of the
    /// percentage, `slack` that of the color in 8-bit levels and `shift` that of the position.
    pub fn accepts(&self, swatch: &Flat, n: usize, [share, slack, shift]: [f64; 3]) -> bool {
        let count = (swatch.percentage * n as f64).round();
        // One division, correctly rounded or nearly so.
        if (swatch.percentage * n as f64 - count).abs() > share * count {
            return false;
        }
        let count = count as usize;
        if count < self.fixed || count > self.fixed + self.shared.len() {
            return false;
        }
        let m = count - self.fixed;
        // Bounds of the mean of each component for this number of members.
        let mut low = self.sum;
        let mut high = self.sum;
        for k in 0..5 {
            let mut v: Vec<f64> = self.shared.iter().map(|p| p[k]).collect();
            v.sort_by(f64::total_cmp);
            low[k] += v.iter().take(m).sum::<f64>();
            high[k] += v.iter().rev().take(m).sum::<f64>();
            low[k] /= count as f64;
            high[k] /= count as f64;
        }
        let (x, y) = (f64::from(swatch.position.0), f64::from(swatch.position.1));
        let near = |v: f64, k: usize| v >= low[k] - 1.0 - shift && v <= high[k] + 1.0 + shift;
        if !near(x, 3) || !near(y, 4) {
            return false;
        }
        let [least, most] = refcolor::lab_box_to_rgb([low[0], low[1], low[2]], [high[0], high[1], high[2]]);
        (0..3).all(|k| {
            let v = f64::from(swatch.color[k]);
            v >= least[k] - 0.5 - slack && v <= most[k] + 0.5 + slack
        })
    }

    pub fn describe(&self) -> String {
        let c = self.fixed.max(1) as f64;
        let m = self.sum.map(|v| v / c);
        let rgb = refcolor::lab_to_rgb([m[0], m[1], m[2]]);
        format!(
            "{} pixels (+{} shared), color {:.2?}, position ({:.2}, {:.2})",
            self.fixed,
            self.shared.len(),
            rgb,
            m[3],
            m[4]
        )
    }
}

// ---------------------------------------------------------------- generators

pub fn color() -> BoxedStrategy<Rgb> {
    let extreme = prop_oneof![Just(0u8), Just(255u8)];
    prop_oneof![
        4 => any::<Rgb>(),
        3 => [extreme.clone(), extreme.clone(), extreme.clone()],
        // Edges and faces of the colour cube.
        2 => (extreme.clone(), extreme, any::<u8>(), 0usize..3)
            .prop_map(|(a, b, v, k)| { let mut c = [a, b, v]; c.swap(2, k); c }),
        1 => any::<u8>().prop_map(|v| [v; 3]),
        1 => [0u8..24, 0u8..24, 0u8..24],
        1 => [240u8..=255, 240u8..=255, 240u8..=255],
    ]
    .boxed()
}

fn colors(n: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<Rgb>> {
    proptest::collection::vec(color(), n).boxed()
}

/// A walk between corners of the colour cube: such gradients often form one cluster whose mean
/// is out of gamut.
fn path() -> BoxedStrategy<Vec<Rgb>> {
    prop_oneof![
        colors(2..=5),
        proptest::collection::vec((0u8..8).prop_map(|b| [0, 1, 2]
            .map(|k| if b >> k & 1 == 1 { 255u8 } else { 0 })), 2..=4),
    ]
    .boxed()
}

pub fn fill() -> BoxedStrategy<Fill> {
    prop_oneof![
        3 => color().prop_map(Fill::Solid),
        3 => (color(), color(), 0u8..3).prop_map(|(a, b, k)| Fill::Gradient(a, b, k)),
        3 => path().prop_map(Fill::Path),
        1 => [color(), color(), color(), color()].prop_map(Fill::Corners),
        4 => (colors(1..=6), 1u16..200, 0u8..2).prop_map(|(c, w, k)| Fill::Stripes(c, w, k)),
        1 => (color(), color(), 1u16..80).prop_map(|(a, b, c)| Fill::Checker(a, b, c)),
        2 => (color(), 0u8..40, any::<u64>()).prop_map(|(c, s, r)| Fill::Noise(c, s, r)),
        2 => (colors(1..=4), any::<u64>()).prop_map(|(c, r)| Fill::Scatter(c, r)),
        2 => (colors(2..=7), 1u16..25, 1u16..25).prop_map(|(c, x, y)| Fill::Cells(c, x, y)),
    ]
    .boxed()
}

fn layer() -> BoxedStrategy<Layer> {
    ([0u16..1000, 0u16..1000, 1u16..1001, 1u16..1001], fill())
        .prop_map(|(area, fill)| Layer { area, fill })
        .boxed()
}

/// Is there a pair of columns and rows whose distance is (nearly) the clustering radius?
pub fn boundary_free(w: u32, h: u32) -> bool {
    let (wf, hf) = (f64::from(w), f64::from(h));
    for dx in 0..=(EPSILON * wf + 1.0) as u32 {
        for dy in 0..=(EPSILON * hf + 1.0) as u32 {
            let d = (f64::from(dx) / wf).hypot(f64::from(dy) / hf);
            if (d - EPSILON).abs() < 1e-5 {
                return false;
            }
        }
    }
    true
}

/// Sizes; clusters need about 480 pixels in one dimension or 113 by 113 pixels in two.
pub fn size(tier: Tier, avoid_boundary: bool) -> BoxedStrategy<(u32, u32)> {
    let line = (480u32..1400, Just(1u32));
    let rows = (500u32..900, 2u32..5);
    let big = tier.pick(150u32, 220);
    let plane = (112u32..big, 112u32..big);
    let skew = (230u32..420, 41u32..60);
    let small = (0u32..48, 0u32..48);
    // Powers of two, round sizes and squares.
    let round = prop_oneof![Just(512u32), Just(1024), Just(640), Just(1000)].prop_map(|w| (w, 1));
    let square = prop_oneof![3 => 112u32..big, 1 => Just(128u32)].prop_map(|w| (w, w));
    (
        prop_oneof![
            10 => line.boxed(),
            4 => rows.boxed(),
            3 => plane.boxed(),
            2 => skew.boxed(),
            1 => small.boxed(),
            1 => round.boxed(),
            1 => square.boxed(),
        ],
        any::<bool>(),
    )
        .prop_map(move |((mut w, mut h), swap)| {
            if avoid_boundary && w > 0 && h > 0 {
                while !boundary_free(w, h) {
                    w += 1;
                    if w % 7 == 0 {
                        h += 1;
                    }
                }
            }
            if swap {
                (h, w)
            } else {
                (w, h)
            }
        })
        .boxed()
}

pub fn alpha() -> BoxedStrategy<Alpha> {
    prop_oneof![
        4 => Just(Alpha::Constant(255)),
        1 => any::<u8>().prop_map(Alpha::Constant),
        1 => Just(Alpha::Ramp),
        1 => any::<u64>().prop_map(Alpha::Random),
        1 => (any::<u64>(), any::<u8>()).prop_map(|(s, a)| Alpha::Sparse(s, a)),
    ]
    .boxed()
}

/// Alpha values that are rarely all opaque.
pub fn varied_alpha() -> BoxedStrategy<Alpha> {
    let value = prop_oneof![Just(0u8), Just(1), Just(127), Just(128), Just(254), Just(255), any::<u8>()].boxed();
    prop_oneof![
        value.clone().prop_map(Alpha::Constant),
        Just(Alpha::Ramp),
        any::<u64>().prop_map(Alpha::Random),
        (any::<u64>(), value.clone()).prop_map(|(s, a)| Alpha::Sparse(s, a)),
        (0u32..4).prop_map(Alpha::First),
        (1u32..4, value.clone()).prop_map(|(k, a)| Alpha::Last(k, a)),
        any::<u64>().prop_map(Alpha::ByColor),
        [value.clone(), value.clone(), value.clone(), value].prop_map(Alpha::Regions),
    ]
    .boxed()
}

pub fn image(tier: Tier, avoid_boundary: bool) -> BoxedStrategy<ImageSpec> {
    (
        size(tier, avoid_boundary),
        fill(),
        proptest::collection::vec(layer(), 0..5),
        proptest::option::weighted(0.3, (1u16..300, any::<u64>())),
        alpha(),
    )
        .prop_map(|((w, h), base, layers, noise, alpha)| ImageSpec {
            w,
            h,
            base,
            layers,
            noise,
            alpha,
        })
        .boxed()
}

/// Images with several clusters of equal or similar size.
pub fn striped_image(tier: Tier, avoid_boundary: bool) -> BoxedStrategy<ImageSpec> {
    (
        size(tier, avoid_boundary),
        colors(2..=8),
        any::<bool>(),
        proptest::option::weighted(0.2, (1u16..100, any::<u64>())),
        alpha(),
    )
        .prop_map(|((w, h), colors, equal, noise, alpha)| {
            let axis = u8::from(h > w);
            let long = w.max(h);
            let width = if equal {
                (long / colors.len() as u32).max(1)
            } else {
                (long / 3).max(1)
            } as u16;
            ImageSpec {
                w,
                h,
                base: Fill::Stripes(colors, width, axis),
                layers: vec![],
                noise,
                alpha,
            }
        })
        .boxed()
}

pub fn any_image(tier: Tier, avoid_boundary: bool) -> BoxedStrategy<ImageSpec> {
    prop_oneof![
        3 => image(tier, avoid_boundary),
        2 => striped_image(tier, avoid_boundary)
    ]
    .boxed()
}

/// Images with more pixels, columns, rows or clusters than small integers can count.
pub fn large(i: usize) -> ImageSpec {
    let seed = mix(2718, i as u64);
    // Colours far apart from each other.
    let mut colors: Vec<Rgb> = (0..27usize)
        .map(|v| [v / 9, v / 3 % 3, v % 3].map(|k| [0, 128, 255][k]))
        .collect();
    for k in (1..colors.len()).rev() {
        colors.swap(k, (mix(seed, k as u64) % (k as u64 + 1)) as usize);
    }
    let some = |n: usize| colors[..n].to_vec();
    // Odd multiples of 20 have no two columns at the distance of the radius.
    let long = 66_020 + 40 * (seed % 60) as u32;
    let (w, h, base) = match i % 8 {
        6 => (239 + (seed % 5) as u32, 241, Fill::Cells(some(27), 34, 34)),
        0 => (long, 1, Fill::Scatter(some(24), seed)),
        1 => (1, long, Fill::Stripes(some(26), 1, 1)),
        2 => (1, long, Fill::Stripes(some(27), 200, 1)),
        3 => (319, 323, Fill::Scatter(some(6), seed)),
        // More pixels than a common thumbnail or screen.
        7 => (701, 503, Fill::Scatter(some(14), seed)),
        4 => (22_020, 3, Fill::Scatter(some(9), seed)),
        _ => (long, 1, Fill::Stripes(some(27), 200, 0)),
    };
    let (mut w, mut h) = (w, h);
    while w.min(h) > 1 && !boundary_free(w, h) {
        w += 1;
        h += u32::from(h > 5);
    }
    ImageSpec {
        w,
        h,
        base,
        layers: vec![],
        noise: (i % 4 == 3).then_some((20, seed)),
        alpha: Alpha::Constant(255),
    }
}
