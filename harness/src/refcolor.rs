//! Independent reference for the colour conversions, always in double precision.
pub const XN: f64 = 0.95046;
pub const YN: f64 = 1.0;
pub const ZN: f64 = 1.08906;
/// Upper bounds documented by the XYZ type.
pub const MAX_XYZ: [f64; 3] = [0.950456, 1.0, 1.088644];

pub fn linear(channel: u8) -> f64 {
    let v = f64::from(channel) / 255.0;
    if v <= 0.04045 {
        v / 12.92
    } else {
        ((v + 0.055) / 1.055).powf(2.4)
    }
}

pub fn gamma(v: f64) -> f64 {
    if v <= 0.0031308 {
        12.92 * v
    } else {
        1.055 * v.powf(1.0 / 2.4) - 0.055
    }
}

/// XYZ without clipping.
pub fn rgb_to_xyz_raw(rgb: [u8; 3]) -> [f64; 3] {
    let [r, g, b] = rgb.map(linear);
    [
        0.412391 * r + 0.357584 * g + 0.180481 * b,
        0.212639 * r + 0.715169 * g + 0.072192 * b,
        0.019331 * r + 0.119195 * g + 0.950532 * b,
    ]
}

pub fn clip_xyz(xyz: [f64; 3]) -> [f64; 3] {
    [
        xyz[0].clamp(0.0, MAX_XYZ[0]),
        xyz[1].clamp(0.0, MAX_XYZ[1]),
        xyz[2].clamp(0.0, MAX_XYZ[2]),
    ]
}

pub fn xyz_to_lab(xyz: [f64; 3]) -> [f64; 3] {
    let d: f64 = 6.0 / 29.0;
    let f = |t: f64| {
        if t > d * d * d {
            t.cbrt()
        } else {
            t / (3.0 * d * d) + 4.0 / 29.0
        }
    };
    let (fx, fy, fz) = (f(xyz[0] / XN), f(xyz[1] / YN), f(xyz[2] / ZN));
    [116.0 * fy - 16.0, 500.0 * (fx - fy), 200.0 * (fy - fz)]
}

pub fn lab_to_xyz_raw(lab: [f64; 3]) -> [f64; 3] {
    let d: f64 = 6.0 / 29.0;
    let f = |t: f64| {
        if t > d {
            t * t * t
        } else {
            3.0 * d * d * (t - 4.0 / 29.0)
        }
    };
    let l = (lab[0] + 16.0) / 116.0;
    [
        XN * f(l + lab[1] / 500.0),
        YN * f(l),
        ZN * f(l - lab[2] / 200.0),
    ]
}

/// sRGB channels scaled to 0..255, neither rounded nor clipped.
pub fn xyz_to_rgb_raw(xyz: [f64; 3]) -> [f64; 3] {
    let [x, y, z] = xyz;
    [
        255.0 * gamma(3.24097 * x - 1.537383 * y - 0.498611 * z),
        255.0 * gamma(-0.969244 * x + 1.875968 * y + 0.041555 * z),
        255.0 * gamma(0.05563 * x - 0.203977 * y + 1.056972 * z),
    ]
}

pub fn rgb_to_lab(rgb: [u8; 3]) -> [f64; 3] {
    xyz_to_lab(clip_xyz(rgb_to_xyz_raw(rgb)))
}

/// sRGB of a Lab colour by way of a clipped XYZ colour, clipped but not rounded.
pub fn lab_to_rgb(lab: [f64; 3]) -> [f64; 3] {
    xyz_to_rgb_raw(clip_xyz(lab_to_xyz_raw(lab))).map(|v| v.clamp(0.0, 255.0))
}

/// Bounds of the sRGB channels of all Lab colours in a box, clipped but not rounded.
pub fn lab_box_to_rgb(low: [f64; 3], high: [f64; 3]) -> [[f64; 3]; 2] {
    // X grows with L and a, Y with L and Z with L and against b.
    let least = clip_xyz(lab_to_xyz_raw([low[0], low[1], high[2]]));
    let most = clip_xyz(lab_to_xyz_raw([high[0], high[1], low[2]]));
    let red = |x: [f64; 3], y: [f64; 3]| xyz_to_rgb_raw([x[0], y[1], y[2]])[0];
    let green = |x: [f64; 3], y: [f64; 3]| xyz_to_rgb_raw([y[0], x[1], x[2]])[1];
    let blue = |x: [f64; 3], y: [f64; 3]| xyz_to_rgb_raw([x[0], y[1], x[2]])[2];
    [(least, most), (most, least)].map(|(x, y)| {
        [red(x, y), green(x, y), blue(x, y)].map(|v| v.clamp(0.0, 255.0))
    })
}
