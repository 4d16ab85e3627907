//! C10..C15, C21: colours.
use crate::ctx::*;
use d10_core::color::illuminant::{D50, D65, E};
use d10_core::color::observer::{O10, O2};
use d10_core::color::*;
use d10_core::pixelbuffer::PixelBuffer;
use d10_ops as ops;
use std::sync::Mutex;

const EPS: f32 = 1.0 / 32768.0;

pub fn hex(d: &[f32]) -> String {
    format!("{:?} (bits {})", d, d.iter().map(|v| format!("{:#010x}", v.to_bits())).collect::<Vec<_>>().join(","))
}

/// any non-NaN number, with emphasis on the edges of [0, 1], on literals and on extremes
fn any_float(c: &mut Ctx) -> f32 {
    loop {
        let v = match c.rng.below(10) {
            0 => f32::from_bits(c.rng.next() as u32),
            1 => *c.rng.pick(&[0.0f32, -0.0, 1.0, -1.0, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, 1e-45, -1e-45, 2.0, 0.5]),
            2 => f32::from_bits(1.0f32.to_bits().wrapping_add(c.rng.below(5) as u32).wrapping_sub(2)),
            3 => { let f = c.floats.clone(); if f.is_empty() { 0.3 } else { *c.rng.pick(&f) * if c.rng.chance(30) { -1.0 } else { 1.0 } } }
            4 => c.rng.f01() * 20.0 - 10.0,
            _ => c.rng.f01() * 2.0 - 0.5,
        };
        if !v.is_nan() { return v; }
    }
}
fn finite(c: &mut Ctx) -> f32 { loop { let v = any_float(c); if v.is_finite() { return v; } } }

const TOL: f32 = 1e-5;
fn in01(d: &[f32]) -> Result<(), String> {
    for v in d { if !(*v >= -TOL && *v <= 1.0 + TOL) { return Err(format!("gives {:?}, outside [0, 1]", d)); } }
    Ok(())
}
fn strict01(d: &[f32]) -> Result<(), String> {
    for v in d { if !(*v >= 0.0 && *v <= 1.0) { return Err(format!("gives {:?}, outside [0, 1]", d)); } }
    Ok(())
}
fn close(a: &[f32], b: &[f32], t: f32) -> Result<(), String> {
    for i in 0..a.len() { if !((a[i] - b[i]).abs() <= t) { return Err(format!("gives {:?}, expected {:?} within {}", a, b, t)); } }
    Ok(())
}

pub fn intensities() -> Vec<Intensity> {
    use Intensity::*;
    vec![Rec601Luma, Rec709Luma, Average, Brightness, Lightness, Saturation, Red, Green, Blue]
}

type Adj = (&'static str, fn(&Rgb, &[f32; 3]) -> Rgb, [f32; 3], u32);
/// (name, application, neutral parameters, bit mask of positive parameters)
fn adjustments() -> Vec<Adj> {
    vec![
        ("with_gamma", |c, p| c.with_gamma(p[0]), [1.0, 0.0, 0.0], 1),
        ("with_gamma_opt", |c, p| c.with_gamma_opt(p[0]), [1.0, 0.0, 0.0], 1),
        ("with_level", |c, p| c.with_level(p[0], p[1], p[2]), [0.0, 1.0, 1.0], 4),
        ("with_brightness", |c, p| c.with_brightness(p[0]), [0.0; 3], 0),
        ("with_saturation", |c, p| c.with_saturation(p[0]), [1.0; 3], 0),
        ("stretch_saturation", |c, p| c.stretch_saturation(p[0]), [1.0; 3], 0),
        ("with_gamma_saturation", |c, p| c.with_gamma_saturation(p[0]), [1.0; 3], 1),
        ("with_lightness", |c, p| c.with_lightness(p[0]), [1.0; 3], 0),
        ("with_hue_rotate", |c, p| c.with_hue_rotate(p[0]), [0.0; 3], 0),
        ("with_contrast", |c, p| c.with_contrast(p[0]), [1.0; 3], 0),
        ("with_brightness_contrast", |c, p| c.with_brightness_contrast(p[0], p[1]), [0.0, 1.0, 0.0], 0),
        ("modulate", |c, p| c.modulate(p[0], p[1], p[2]), [1.0; 3], 0),
        ("with_vibrance", |c, p| c.with_vibrance(p[0]), [0.0; 3], 0),
    ]
}
fn params(c: &mut Ctx, pos: u32) -> [f32; 3] {
    let mut p = [0.0; 3];
    let calm = c.rng.chance(60);
    for (i, v) in p.iter_mut().enumerate() {
        *v = if calm { c.rng.f01() * 4.0 - 1.0 } else { finite(c) };
        if calm && c.rng.chance(20) { *v = *c.rng.pick(&[0.0, 1.0, 0.5, 2.0, 90.0, 180.0, 360.0, -360.0, -90.0, 400.0, -400.0]); }
        if pos & (1 << i) != 0 { *v = v.abs(); if *v == 0.0 { *v = 1e-3 } }
    }
    if calm && c.rng.chance(10) { p[1] = p[0]; }
    p
}

pub fn c10(c: &mut Ctx) -> Res {
    let n = if c.thorough { 2_000_000 } else { 300_000 };
    for _ in 0..n {
        let d = [any_float(c), any_float(c), any_float(c), any_float(c)];
        let want = |a: f32| if a < 0.0 { 0.0 } else if a > 1.0 { 1.0 } else { a };
        let w4 = [want(d[0]), want(d[1]), want(d[2]), want(d[3])];
        let w3 = [w4[0], w4[1], w4[2], 1.0];
        let chk = |g: [f32; 4], w: [f32; 4]| if g == w { strict01(&g) } else { Err(format!("gives {:?}, expected {:?}", g, w)) };
        let i = || hex(&d);
        let r = run(|| Rgb::new_with_alpha(d[0], d[1], d[2], d[3]).data).and_then(|g| chk(g, w4)); c.case("Rgb::new_with_alpha", i, r)?;
        let r = run(|| Rgb::new(d[0], d[1], d[2]).data).and_then(|g| chk(g, w3)); c.case("Rgb::new", i, r)?;
        let r = run(|| Srgb::new_with_alpha(d[0], d[1], d[2], d[3]).data).and_then(|g| chk(g, w4)); c.case("Srgb::new_with_alpha", i, r)?;
        let r = run(|| Srgb::new(d[0], d[1], d[2]).data).and_then(|g| chk(g, w3)); c.case("Srgb::new", i, r)?;
        let r = run(|| Srgb::new_from_fn(|k| d[k]).data).and_then(|g| chk(g, w4)); c.case("Srgb::new_from_fn", i, r)?;
    }
    let n = if c.thorough { 400_000 } else { 60_000 };
    for _ in 0..n {
        let col = c.color01();
        for (name, f, neutral, pos) in adjustments() {
            let p = params(c, pos);
            let r = run(|| f(&col, &p)).and_then(|g| in01(&g.data));
            c.case(name, || format!("colour {} parameters {:?}", hex(&col.data), p), r)?;
            let r = run(|| f(&col, &neutral)).and_then(|g| close(&g.data, &col.data, 2.0 * EPS));
            c.case(&format!("{}/neutral", name), || format!("colour {} parameters {:?}", hex(&col.data), neutral), r)?;
            if name == "with_hue_rotate" {
                // any number of whole turns
                let p = [360.0 * (c.rng.below(41) as f32 - 20.0), 0.0, 0.0];
                let r = run(|| f(&col, &p)).and_then(|g| close(&g.data, &col.data, 2.0 * EPS + 1e-4));
                c.case("with_hue_rotate/turns", || format!("colour {} parameters {:?}", hex(&col.data), p), r)?;
            }
        }
        for k in intensities() {
            let n = format!("to_gray_with_intensity/{:?}", k);
            let r = run(|| col.to_gray_with_intensity(k)).and_then(|g| { in01(&g.data)?; if g.data[0] == g.data[1] && g.data[1] == g.data[2] { Ok(()) } else { Err(format!("{:?} is not gray", g)) } });
            c.case(&n, || hex(&col.data), r)?;
        }
        let r = run(|| col.to_gray()).and_then(|g| in01(&g.data)); c.case("to_gray", || hex(&col.data), r)?;
        let r = run(|| col.with_sepia()).and_then(|g| in01(&g.data)); c.case("with_sepia", || hex(&col.data), r)?;
        let r = run(|| (col.invert(), col.invert().invert())).and_then(|(a, b)| in01(&a.data).and_then(|_| close(&b.data, &col.data, 1e-6)));
        c.case("invert", || hex(&col.data), r)?;
    }
    Ok(())
}

pub fn c11(c: &mut Ctx) -> Res {
    let n = if c.thorough { 200_000 } else { 30_000 };
    for _ in 0..n {
        let mut col = c.color01();
        match c.rng.below(6) { 0 => col.data[3] = f32::from_bits(c.rng.below(0x3f80_0001) as u32), 1 => col.data[3] = 0.0, _ => {} }
        let a = col.data[3].to_bits();
        let i = || hex(&col.data);
        macro_rules! keep { ($name:expr, $e:expr) => {{
            let r = run(|| $e).and_then(|g| if g.alpha().to_bits() == a && g.data()[3].to_bits() == a { Ok(()) } else { Err(format!("alpha {} became {}", col.data[3], g.alpha())) });
            c.case($name, i, r)?;
        }}}
        macro_rules! from { ($src:expr, $n:literal) => {{
            let s = $src;
            keep!(concat!($n, "->rgb"), s.to_rgb()); keep!(concat!($n, "->srgb"), s.to_srgb()); keep!(concat!($n, "->hsl"), s.to_hsl()); keep!(concat!($n, "->hsv"), s.to_hsv());
            keep!(concat!($n, "->yuv"), s.to_yuv()); keep!(concat!($n, "->xyz"), s.to_xyz());
            keep!(concat!($n, "->lab"), s.to_lab::<D65, O2>()); keep!(concat!($n, "->lch"), s.to_lch::<D65, O2>());
            keep!(concat!($n, "->lab"), s.to_lab::<D50, O10>()); keep!(concat!($n, "->lch"), s.to_lch::<E, O10>());
            let na = c.rng.f01();
            let r = run(|| { let w = s.with_alpha(na); let mut m = s; m.set_alpha(na); (w, m) }).and_then(|(w, m)| {
                for g in [w, m] { if g.data()[3].to_bits() != na.to_bits() || g.alpha().to_bits() != na.to_bits() || (0..3).any(|k| g.data()[k].to_bits() != s.data()[k].to_bits()) { return Err(format!("with_alpha({}) gives {:?}", na, g)); } } Ok(()) });
            c.case(concat!($n, "::with_alpha/set_alpha"), || format!("{:?}", s), r)?;
            let r = run(|| s.map_color_channels(|v| v * 0.5)).and_then(|g| if g.data()[3].to_bits() == a && (0..3).all(|k| g.data()[k] == s.data()[k] * 0.5) { Ok(()) } else { Err(format!("map_color_channels(v*0.5) gives {:?}", g)) });
            c.case(concat!($n, "::map_color_channels"), || format!("{:?}", s), r)?;
            let r = run(|| s.try_map_color_channels::<(), _>(|v| Ok(v * 0.25))).and_then(|g| match g { Ok(g) if g.data()[3].to_bits() == a && (0..3).all(|k| g.data()[k] == s.data()[k] * 0.25) => Ok(()), o => Err(format!("gives {:?}", o)) });
            c.case(concat!($n, "::try_map_color_channels"), || format!("{:?}", s), r)?;
            for e in 0..3 { let mut k = 0; let r = run(|| s.try_map_color_channels::<usize, _>(|v| { k += 1; if k - 1 == e { Err(e) } else { Ok(v) } })).and_then(|g| match g { Err(x) if x == e => Ok(()), o => Err(format!("error in channel {} gives {:?}", e, o)) }); c.case(concat!($n, "::try_map_color_channels/error"), || format!("{:?}", s), r)?; }
        }}}
        from!(col, "rgb");
        from!(col.to_srgb(), "srgb"); from!(col.to_hsl(), "hsl"); from!(col.to_hsv(), "hsv"); from!(col.to_yuv(), "yuv"); from!(col.to_xyz(), "xyz");
        from!(col.to_lab::<D65, O2>(), "lab"); from!(col.to_lch::<D65, O2>(), "lch"); from!(col.to_lab::<D50, O10>(), "lab<D50,O10>"); from!(col.to_lch::<E, O2>(), "lch<E,O2>");
        for (name, f, _, pos) in adjustments() { let p = params(c, pos); let i2 = || format!("colour {} parameters {:?}", hex(&col.data), p);
            let r = run(|| f(&col, &p)).and_then(|g| if g.alpha().to_bits() == a { Ok(()) } else { Err(format!("alpha {} became {}", col.data[3], g.alpha())) }); c.case(name, i2, r)?; }
        for k in intensities() { let n = format!("to_gray_with_intensity/{:?}", k); keep!(&n, col.to_gray_with_intensity(k)); }
        keep!("to_gray", col.to_gray()); keep!("invert", col.invert()); keep!("with_sepia", col.with_sepia());
        keep!("map_channels", col.map_channels(|v| v * 0.5 + 0.1)); keep!("map_channels_unclamped", col.map_channels_unclamped(|v| v * 3.0 - 1.0));
        keep!("mod_color_channels", { let mut m = col; m.mod_color_channels(|v| v * 0.5); m });
        // channel replacement
        let v = c.rng.f01();
        macro_rules! repl { ($t:expr, $n:literal, $k:literal, $w:ident, $s:ident, $g:ident) => {{
            let s = $t;
            let r = run(|| { let w = s.$w(v); let mut m = s; m.$s(v); (w, m) }).and_then(|(w, m)| { for g in [w, m] { if g.$g().to_bits() != v.to_bits() || (0..4).any(|k| g.data()[k].to_bits() != if k == $k { v.to_bits() } else { s.data()[k].to_bits() }) { return Err(format!("replacing channel {} by {} gives {:?}", $k, v, g)); } } Ok(()) });
            c.case(concat!($n, "::", stringify!($w)), || format!("{:?} value {}", s, v), r)?;
        }}}
        repl!(col, "Rgb", 0, with_red, set_red, red); repl!(col, "Rgb", 1, with_green, set_green, green); repl!(col, "Rgb", 2, with_blue, set_blue, blue);
        let s = Srgb { data: col.data };
        repl!(s, "Srgb", 0, with_red, set_red, red); repl!(s, "Srgb", 1, with_green, set_green, green); repl!(s, "Srgb", 2, with_blue, set_blue, blue);
        let s = Hsl { data: col.data };
        repl!(s, "Hsl", 0, with_hue, set_hue, hue); repl!(s, "Hsl", 1, with_saturation, set_saturation, saturation); repl!(s, "Hsl", 2, with_lightness, set_lightness, lightness);
        let s = Hsv { data: col.data };
        repl!(s, "Hsv", 0, with_hue, set_hue, hue); repl!(s, "Hsv", 1, with_saturation, set_saturation, saturation); repl!(s, "Hsv", 2, with_value, set_value, value);
        let s = Yuv { data: col.data };
        repl!(s, "Yuv", 0, with_y, set_y, y); repl!(s, "Yuv", 1, with_u, set_u, u); repl!(s, "Yuv", 2, with_v, set_v, v);
        let s = Xyz { data: col.data };
        repl!(s, "Xyz", 0, with_x, set_x, x); repl!(s, "Xyz", 1, with_y, set_y, y); repl!(s, "Xyz", 2, with_z, set_z, z);
        let s = Lab::<D50, O10>::new_with_alpha(col.data[0], col.data[1], col.data[2], col.data[3]);
        repl!(s, "Lab", 0, with_l, set_l, l); repl!(s, "Lab", 1, with_a, set_a, a); repl!(s, "Lab", 2, with_b, set_b, b);
        let s = Lch::<D50, O10>::new_with_alpha(col.data[0], col.data[1], col.data[2], col.data[3]);
        repl!(s, "Lch", 0, with_l, set_l, l); repl!(s, "Lch", 1, with_c, set_c, c); repl!(s, "Lch", 2, with_h, set_h, h);
    }
    Ok(())
}

fn hs_check(col: &Rgb) -> Result<(), (&'static str, String)> {
    let d = col.data;
    let gray = d[0] == d[1] && d[1] == d[2];
    let h = col.to_hsl();
    let g = |n: &'static str, e: String| Err((n, e));
    if let Err(e) = in01(&h.data[..3]) { return g("to_hsl/range", e); }
    if gray && (h.data[0] != 0.0 || h.data[1] != 0.0) { return g("to_hsl/gray", format!("gray gives {:?}", h)); }
    if let Err(e) = close(&h.to_rgb().data, &d, EPS * 1.05) { return g("to_hsl/roundtrip", e); }
    let v = col.to_hsv();
    if let Err(e) = in01(&v.data[..3]) { return g("to_hsv/range", e); }
    if gray && (v.data[0] != 0.0 || v.data[1] != 0.0) { return g("to_hsv/gray", format!("gray gives {:?}", v)); }
    if let Err(e) = close(&v.to_rgb().data, &d, EPS * 1.05) { return g("to_hsv/roundtrip", e); }
    // the same components read as HSL / HSV
    let r = Hsl { data: d }.to_rgb();
    if let Err(e) = in01(&r.data) { return g("Hsl::to_rgb/range", e); }
    let r = Hsv { data: d }.to_rgb();
    if let Err(e) = in01(&r.data) { return g("Hsv::to_rgb/range", e); }
    Ok(())
}

/// reference hue / saturation / lightness|value in f64
fn ref_hs(d: &[f32; 4]) -> (f64, f64, f64, f64, f64) {
    let (r, g, b) = (d[0] as f64, d[1] as f64, d[2] as f64);
    let mx = r.max(g).max(b); let mn = r.min(g).min(b); let l = (mx + mn) / 2.0; let dl = mx - mn;
    let s = if dl == 0.0 { 0.0 } else { dl / (1.0 - (2.0 * l - 1.0).abs()) };
    let sv = if mx == 0.0 { 0.0 } else { dl / mx };
    let mut h = if dl == 0.0 { 0.0 } else if mx == r { (g - b) / dl } else if mx == g { 2.0 + (b - r) / dl } else { 4.0 + (r - g) / dl };
    if h < 0.0 { h += 6.0 }
    (h / 6.0, s, l, sv, mx)
}

pub fn c12(c: &mut Ctx) -> Res {
    let n = if c.thorough { 6_000_000 } else { 700_000 };
    for k in 0..n {
        let col = c.color01();
        let r = match run(|| hs_check(&col)) { Err(e) => Err(("to_hsl/to_hsv", e)), Ok(r) => r };
        match r { Ok(()) => { if k % 50 == 0 { c.case("hsl/hsv", || hex(&col.data), Ok(()))? } else { c.bulk("hsl/hsv", 1) } } Err((f, e)) => c.case(f, || hex(&col.data), Err(e))? }
        if k % 4 == 0 {
            // well-conditioned colours have the standard components
            let d = col.data; let mx = d[0].max(d[1]).max(d[2]); let mn = d[0].min(d[1]).min(d[2]);
            if mx - mn > 0.05 && mx > 0.05 && mn < 0.95 {
                let (h, s, l, sv, v) = ref_hs(&d);
                let a = col.to_hsl(); let b = col.to_hsv();
                let hd = |x: f32| { let e = (x as f64 - h).abs(); e.min(1.0 - e) };
                let ok = hd(a.data[0]) < 2e-3 && (a.data[1] as f64 - s).abs() < 1e-3 && (a.data[2] as f64 - l).abs() < 1e-4 && hd(b.data[0]) < 2e-3 && (b.data[1] as f64 - sv).abs() < 1e-3 && (b.data[2] as f64 - v).abs() < 1e-4;
                c.case("hsl/hsv components", || hex(&d), if ok { Ok(()) } else { Err(format!("gives {:?} and {:?}", a, b)) })?;
            }
        }
    }
    // lattice with ties and near ties
    let steps: Vec<f32> = { let mut v: Vec<f32> = (0..=24).map(|i| i as f32 / 24.0).collect(); for e in [1e-7f32, 1e-6, 1e-5, 2e-5, 3e-5, 3.1e-5, 4e-5, 1e-4] { v.push(e); v.push(0.5 + e); v.push(0.5 - e); v.push(1.0 - e); } v.extend(c.floats.iter().filter(|f| **f >= 0.0 && **f <= 1.0).take(30)); v };
    for &r in &steps { for &g in &steps { for &b in &steps {
        let col = Rgb { data: [r, g, b, 0.5] };
        match run(|| hs_check(&col)) { Err(e) => c.case("to_hsl/to_hsv", || hex(&col.data), Err(e))?, Ok(Err((f, e))) => c.case(f, || hex(&col.data), Err(e))?, _ => c.bulk("hsl/hsv lattice", 1) }
    } } }
    Ok(())
}

macro_rules! labs { ($mac:ident) => { $mac!(D50, O2); $mac!(D50, O10); $mac!(D65, O2); $mac!(D65, O10); $mac!(E, O2); $mac!(E, O10); } }
pub const RT: f32 = 1e-5;
pub const RT_LAB: f32 = 3e-5;

pub fn c13(c: &mut Ctx) -> Res {
    let n = if c.thorough { 1_000_000 } else { 120_000 };
    let mut worst = [0f32; 4];
    for k in 0..n {
        let mut col = c.color01();
        if k % 5 == 0 { let s = c.rng.f01() * 0.03; for i in 0..3 { col.data[i] *= s; } }
        let d = col.data;
        let mx = |a: &[f32; 4]| (0..4).map(|i| { let e = (a[i] - d[i]).abs(); if e.is_nan() { 9.0 } else { e } }).fold(0.0f32, f32::max);
        let (a, b) = match run(|| (col.to_yuv().to_rgb().data, col.to_xyz().to_rgb().data)) { Ok(v) => v, Err(e) => { c.case("yuv/xyz", || hex(&d), Err(e))?; unreachable!() } };
        worst[0] = worst[0].max(mx(&a)); worst[1] = worst[1].max(mx(&b));
        c.case("yuv", || hex(&d), close(&a, &d, RT))?;
        c.case("xyz", || hex(&d), close(&b, &d, RT))?;
        macro_rules! one { ($i:ident, $o:ident) => {{
            let r = run(|| (col.to_lab::<$i, $o>(), col.to_lch::<$i, $o>()));
            match r { Err(e) => c.case("lab/lch", || hex(&d), Err(e))?, Ok((l, h)) => {
                let (x, y) = (l.to_rgb().data, h.to_rgb().data);
                worst[2] = worst[2].max(mx(&x)); worst[3] = worst[3].max(mx(&y));
                c.case(concat!("lab<", stringify!($i), ",", stringify!($o), ">"), || hex(&d), close(&x, &d, RT_LAB))?;
                c.case(concat!("lch<", stringify!($i), ",", stringify!($o), ">"), || hex(&d), close(&y, &d, RT_LAB))?;
                let z = h.to_lab::<$i, $o>().data; c.case("lch->lab", || hex(&d), close(&z, &l.data, 1e-4))?;
            } }
        }}}
        labs!(one);
        // grays
        let v = col.data[0];
        let g = Rgb { data: [v, v, v, 1.0] };
        let y = g.to_yuv();
        c.case("yuv/gray", || hex(&g.data), if y.u().abs() <= 1e-6 && y.v().abs() <= 1e-6 && (y.y() - g.to_srgb().red()).abs() <= 1e-5 { Ok(()) } else { Err(format!("gray gives {:?}", y)) })?;
        let l = g.to_lab::<D65, O2>(); let h = g.to_lch::<D65, O2>();
        c.case("lab/gray", || hex(&g.data), if l.a().abs() < 1e-3 && l.b().abs() < 1e-3 && h.c() < 1e-3 && l.l() >= -1e-4 && l.l() <= 1.0001 { Ok(()) } else { Err(format!("gray gives {:?} {:?}", l, h)) })?;
    }
    let w = Rgb::WHITE.to_lab::<D65, O2>(); let k = Rgb::BLACK.to_lab::<D65, O2>();
    c.case("lab/white", || "white".into(), close(&w.data, &[1.0, 0.0, 0.0, 1.0], 1e-4))?;
    c.case("lch/white", || "white".into(), { let h = Rgb::WHITE.to_lch::<D65, O2>(); if (h.l() - 1.0).abs() < 1e-4 && h.c().abs() < 1e-4 { Ok(()) } else { Err(format!("{:?}", h)) } })?;
    c.case("lab/black", || "black".into(), close(&k.data, &[0.0, 0.0, 0.0, 1.0], 1e-4))?;
    c.samples.push(format!("largest round-trip errors yuv {:e} xyz {:e} lab {:e} lch {:e}", worst[0], worst[1], worst[2], worst[3]));
    Ok(())
}

pub fn c14(c: &mut Ctx) -> Res {
    let n = if c.thorough { 600_000 } else { 80_000 };
    let t = 2e-6f32;
    for _ in 0..n {
        let (a, b) = (c.color01(), c.color01());
        let i = match c.rng.below(6) { 0 => 0.0, 1 => 1.0, 2 => 0.5, _ => c.rng.f01() };
        let inp = || format!("{} with {} intensity {:?}", hex(&a.data), hex(&b.data), i);
        let ops: [(&str, fn(Rgb, Rgb, f32) -> Rgb, fn(f32, f32) -> f32); 4] = [("blend_addition", ops::blend_addition, |x, y| x + y), ("blend_subtract", ops::blend_subtract, |x, y| x - y), ("blend_darken", ops::blend_darken, |x, y| x.min(y)), ("blend_lighten", ops::blend_lighten, |x, y| x.max(y))];
        let w = i * b.data[3];
        for (n, f, op) in ops {
            let mut e = [0.0; 4];
            for k in 0..3 { e[k] = (a.data[k] * (1.0 - w) + op(a.data[k], b.data[k]) * w).clamp(0.0, 1.0); }
            e[3] = b.data[3];
            let r = run(|| f(a, b, i)).and_then(|g| close(&g.data, &e, t).and_then(|_| in01(&g.data)));
            c.case(n, inp, r)?;
        }
        let mut e = [0.0; 4];
        for k in 0..3 { e[k] = (a.data[k] * (1.0 - w) + b.data[k] * w).clamp(0.0, 1.0); }
        let g = match run(|| ops::blend_normal(a, b, i)) { Ok(g) => g, Err(m) => { c.case("blend_normal", inp, Err(m))?; unreachable!() } };
        c.case("blend_normal", inp, close(&g.data[..3], &e[..3], t).and_then(|_| in01(&g.data)))?;
        let z = [b.with_alpha(0.0), b];
        for (bb, ii) in [(z[0], i), (z[1], 0.0)] { let r = run(|| ops::blend_normal(a, bb, ii)).and_then(|g| close(&g.data, &a.data, t)); c.case("blend_normal/neutral", || format!("{} with {} intensity {:?}", hex(&a.data), hex(&bb.data), ii), r)?; }
        let o = b.with_alpha(1.0);
        let r = run(|| ops::blend_normal(a, o, 1.0)).and_then(|g| close(&g.data, &o.data, t)); c.case("blend_normal/opaque", inp, r)?;
        for (n, f) in [("blend_hsl_darken", ops::blend_hsl_darken as fn(Rgb, Rgb, f32) -> Rgb), ("blend_hsl_lighten", ops::blend_hsl_lighten)] {
            let r = run(|| f(a, b, 0.0)).and_then(|g| close(&g.data, &a.data, 2.0 * EPS)); c.case(&format!("{}/neutral", n), inp, r)?;
            let r = run(|| f(a, b, i)).and_then(|g| { in01(&g.data)?; if g.data[3].to_bits() == a.data[3].to_bits() { Ok(()) } else { Err(format!("alpha {} became {}", a.data[3], g.data[3])) } }); c.case(n, inp, r)?;
        }
        for (n, f) in [("blend_lch_darken", ops::blend_lch_darken as fn(Rgb, Rgb, f32) -> Rgb), ("blend_lch_lighten", ops::blend_lch_lighten), ("blend_lch_hue", ops::blend_lch_hue), ("blend_lch_saturation", ops::blend_lch_saturation), ("blend_lch_color", ops::blend_lch_color)] {
            let r = run(|| f(a, b, 0.0)).and_then(|g| close(&g.data, &a.data, RT_LAB)); c.case(&format!("{}/neutral", n), inp, r)?;
            let r = run(|| f(a, b, i)).and_then(|g| { in01(&g.data)?; if g.data[3].to_bits() == a.data[3].to_bits() { Ok(()) } else { Err(format!("alpha {} became {}", a.data[3], g.data[3])) } }); c.case(n, inp, r)?;
        }
    }
    Ok(())
}

pub const GAMMA_STEP: f32 = 3e-7;

pub fn c15(c: &mut Ctx) -> Res {
    for (n, f) in [("gamma_to_linear", gamma_to_linear as fn(f32) -> f32), ("linear_to_gamma", linear_to_gamma)] {
        for v in [0.0f32, 1.0] { let g = f(v); c.case(&format!("{}/fix", n), || format!("{}", v), if (g - v).abs() <= 1e-6 { Ok(()) } else { Err(format!("{} maps to {}", v, g)) })?; }
    }
    // exhaustive over all f32 in [0, 1] (thorough) or every 61st plus the surroundings of the joins and literals (quick)
    let stride: u32 = if c.thorough { 1 } else { 61 };
    let hi = 1.0f32.to_bits();
    let fail: Mutex<Option<(u32, String)>> = Mutex::new(None);
    let nthreads = 8u32;
    let chunk = hi / nthreads + 1;
    let mut windows: Vec<(u32, u32, u32)> = (0..nthreads).map(|t| (t * chunk, ((t + 1) * chunk).min(hi), stride)).collect();
    for v in [0.0031308f32, 0.003130805, 0.04045, 0.0404499, 0.5, 0.01, 0.001].iter().cloned().chain(c.floats.iter().cloned().filter(|f| *f > 0.0 && *f < 1.0).take(24)) { let b = v.to_bits(); windows.push((b.saturating_sub(40_000), (b + 40_000).min(hi), 1)); }
    let total: u64 = windows.iter().map(|(a, b, s)| ((b - a) / s) as u64 + 1).sum();
    std::thread::scope(|s| {
        for part in windows.chunks((windows.len() + 7) / 8) {
            let fail = &fail;
            s.spawn(move || {
                for &(a, b, st) in part {
                    let (mut pg, mut pl) = (f32::NEG_INFINITY, f32::NEG_INFINITY);
                    let mut i = a;
                    loop {
                        let v = f32::from_bits(i);
                        let l = gamma_to_linear(v); let g = linear_to_gamma(v);
                        let e = if !(l >= 0.0 && l <= 1.0 + 1e-6) { Some(format!("gamma_to_linear({:?}) = {:?} outside [0, 1]", v, l)) }
                        else if !(g >= 0.0 && g <= 1.0 + 1e-6) { Some(format!("linear_to_gamma({:?}) = {:?} outside [0, 1]", v, g)) }
                        else if !(l >= pl - GAMMA_STEP) { Some(format!("gamma_to_linear decreases to {:?} at {:?} from {:?}", l, v, pl)) }
                        else if !(g >= pg - GAMMA_STEP) { Some(format!("linear_to_gamma decreases to {:?} at {:?} from {:?}", g, v, pg)) }
                        else if !((linear_to_gamma(l) - v).abs() <= 1e-6) { Some(format!("linear_to_gamma(gamma_to_linear({:?})) = {:?}", v, linear_to_gamma(l))) }
                        else if !((gamma_to_linear(g) - v).abs() <= 1e-6) { Some(format!("gamma_to_linear(linear_to_gamma({:?})) = {:?}", v, gamma_to_linear(g))) }
                        else { None };
                        if let Some(e) = e { let mut m = fail.lock().unwrap(); if m.is_none() { *m = Some((i, e)); } return; }
                        pg = g.max(pg); pl = l.max(pl);
                        if i >= b { break; }
                        i = i.saturating_add(st).min(b);
                    }
                }
            });
        }
    });
    c.bulk("gamma_to_linear+linear_to_gamma", total);
    if let Some((i, e)) = fail.into_inner().unwrap() { c.case("transfer", || format!("{:?}", f32::from_bits(i)), Err(e))?; }
    if c.thorough { c.exhaustive.push("gamma_to_linear, linear_to_gamma: every f32 in [0, 1]".into()); }
    // reference values of the sRGB standard
    for k in 0..=2000 { let v = k as f64 / 2000.0;
        let l = if v <= 0.04045 { v / 12.92 } else { ((v + 0.055) / 1.055).powf(2.4) };
        let g = gamma_to_linear(v as f32) as f64;
        c.case("gamma_to_linear/standard", || format!("{}", v), if (g - l).abs() < 1e-5 { Ok(()) } else { Err(format!("gives {}, sRGB standard {}", g, l)) })?; }
    // conversion applies the functions to the colour channels only
    for _ in 0..50_000 {
        let col = c.color01(); let d = col.data;
        let s = col.to_srgb(); let e = [linear_to_gamma(d[0]).clamp(0.0, 1.0), linear_to_gamma(d[1]).clamp(0.0, 1.0), linear_to_gamma(d[2]).clamp(0.0, 1.0), d[3]];
        c.case("Rgb::to_srgb", || hex(&d), if s.data == e { Ok(()) } else { Err(format!("gives {:?}, expected {:?}", s.data, e)) })?;
        let s = Srgb { data: d }.to_rgb(); let e = [gamma_to_linear(d[0]).clamp(0.0, 1.0), gamma_to_linear(d[1]).clamp(0.0, 1.0), gamma_to_linear(d[2]).clamp(0.0, 1.0), d[3]];
        c.case("Srgb::to_rgb", || hex(&d), if s.data == e { Ok(()) } else { Err(format!("gives {:?}, expected {:?}", s.data, e)) })?;
    }
    Ok(())
}

fn eq_cases<C: Color>(c: &mut Ctx, name: &str, mk: fn([f32; 4]) -> C) -> Res {
    let n = if c.thorough { 100_000 } else { 12_000 };
    for _ in 0..n {
        let wide = c.rng.chance(10);
        let mut a = [0f32; 4];
        for v in a.iter_mut() { *v = if wide { c.rng.f01() * 20.0 - 10.0 } else { c.chan() }; }
        let mut b = a;
        let m = c.rng.below(16);
        for k in 0..4 { if m & (1 << k) != 0 {
            let s = if c.rng.chance(50) { 1.0 } else { -1.0 };
            b[k] += s * match c.rng.below(6) { 0 => EPS, 1 => EPS * 0.99, 2 => EPS * 1.01, 3 => EPS * 3.0, 4 => c.rng.f01(), _ => EPS * 0.4 };
        } }
        let want = (0..4).all(|k| (a[k] - b[k]).abs() <= EPS);
        let (x, y) = (mk(a), mk(b));
        let i = || format!("{} {} and {}", name, hex(&a), hex(&b));
        let r = run(|| (x == y, y == x, x == x)).and_then(|(p, q, s)| if p == want && q == want && s { Ok(()) } else { Err(format!("equality gives {} and {}, reflexive {}, expected {}", p, q, s, want)) });
        c.case(&format!("{}::eq", name), i, r)?;
        let t = (1.0 - a[3]).abs() > EPS;
        let r = run(|| x.has_transparency()).and_then(|g| if g == t { Ok(()) } else { Err(format!("has_transparency gives {}, expected {}", g, t)) });
        c.case(&format!("{}::has_transparency", name), i, r)?;
        // alpha near 1
        let al = 1.0 + (c.rng.f01() - 0.5) * 5.0 * EPS;
        let z = mk([a[0], a[1], a[2], al]);
        let t = (1.0 - al).abs() > EPS;
        let r = run(|| z.has_transparency()).and_then(|g| if g == t { Ok(()) } else { Err(format!("has_transparency gives {}, expected {}", g, t)) });
        c.case(&format!("{}::has_transparency", name), || format!("alpha {:?}", al), r)?;
    }
    Ok(())
}

pub fn c21(c: &mut Ctx) -> Res {
    eq_cases(c, "Rgb", |d| Rgb { data: d })?;
    eq_cases(c, "Srgb", |d| Srgb { data: d })?;
    eq_cases(c, "Hsl", |d| Hsl { data: d })?;
    eq_cases(c, "Hsv", |d| Hsv { data: d })?;
    eq_cases(c, "Yuv", |d| Yuv { data: d })?;
    eq_cases(c, "Xyz", |d| Xyz { data: d })?;
    eq_cases(c, "Lab", |d| Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]))?;
    eq_cases(c, "Lch", |d| Lch::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]))?;
    for _ in 0..(if c.thorough { 400_000 } else { 60_000 }) {
        let mut d = c.color01().data;
        if c.rng.chance(70) { d[1] = d[0] + (c.rng.f01() - 0.5) * 4.0 * EPS; d[2] = d[1] + (c.rng.f01() - 0.5) * 4.0 * EPS; }
        let want = (d[0] - d[1]).abs() < EPS && (d[1] - d[2]).abs() < EPS;
        let r = run(|| Rgb { data: d }.is_grayscale()).and_then(|g| if g == want { Ok(()) } else { Err(format!("is_grayscale gives {}, expected {}", g, want)) });
        c.case("Rgb::is_grayscale", || hex(&d), r)?;
    }
    for (w, h) in c.sizes(true, 3000) {
        for kind in 0..6 {
            let v = c.chan();
            let mut data = vec![Rgb { data: [v, v, v, 1.0] }; (w * h) as usize];
            let n = data.len();
            if n > 0 && kind > 0 {
                let pos = match kind { 1 => 0, 2 => n - 1, _ => c.rng.below(n as u64) as usize };
                match c.rng.below(5) { 0 => data[pos].data[3] = 0.5, 1 => data[pos].data[0] = v + 0.1, 2 => data[pos].data[2] = v - 0.1, 3 => data[pos].data[3] = 1.0 - 3.0 * EPS, _ => data[pos] = c.color01() }
            }
            let t = data.iter().any(|p| (1.0 - p.data[3]).abs() > EPS);
            let g = data.iter().all(|d| (d.data[0] - d.data[1]).abs() < EPS && (d.data[1] - d.data[2]).abs() < EPS);
            let b = PixelBuffer::new_from_raw(w, h, data);
            let r = run(|| (b.has_transparency(), b.is_grayscale())).and_then(|(x, y)| if x == t && y == g { Ok(()) } else { Err(format!("has_transparency {} (expected {}), is_grayscale {} (expected {})", x, t, y, g)) });
            c.case("PixelBuffer::has_transparency/is_grayscale", || img_str(&b), r)?;
        }
    }
    Ok(())
}
