//! Executable contracts of C19 (queues), C20 (noise), C22 (filters), C23 (palette), C24 (Image facade).
use crate::ctx::*;
use d10::ops;
use d10::ops::{BalanceMode, BlendOp, DrawingMode, SaturationMode};
use d10::{EdgeDetection, EqualizeMode, FilterMode, Image};
use d10_commands::{Cmd, CommandError, Queue};
use d10_core::color::illuminant::D65;
use d10_core::color::observer::O2;
use d10_core::color::{Color, Intensity, Lab, Rgb};
use d10_core::pixelbuffer::PixelBuffer;

// ---------------------------------------------------------------- C20
fn same_img(a: &PixelBuffer<Rgb>, b: &PixelBuffer<Rgb>) -> Result<(), String> {
    expect(a, b.width(), b.height(), |x, y| at(b, x, y))
}
fn each(a: &PixelBuffer<Rgb>, o: &PixelBuffer<Rgb>, f: impl Fn(&Rgb, &Rgb) -> Result<(), String>) -> Result<(), String> {
    wf(o)?;
    if (a.width(), a.height()) != (o.width(), o.height()) {
        return Err(format!("result is {}x{}", o.width(), o.height()));
    }
    for (i, (p, q)) in a.data().iter().zip(o.data()).enumerate() {
        f(p, q).map_err(|e| format!("pixel {} {:?} became {:?}: {}", i, p.data, q.data, e))?;
    }
    Ok(())
}

pub fn c20(c: &mut Ctx) -> Res {
    let sizes = c.small_sizes(true);
    let limit = c.budget(12.0, 120.0);
    for round in 0..(if c.thorough { 100 } else { 20 }) {
        for &(w, h) in &sizes {
            if c.elapsed() > limit { break; }
            let mut img = c.image01(w, h);
            if c.rng.chance(30) { for p in img.data_mut() { let a = p.data[0]; p.data = [a * 0.5, 0.25, 0.75, a * 0.9]; } }
            let th = match c.rng.below(9) { 0 => 0.0f32, 1 => -1.0, 2 => 1.0000001, 3 => 1.5, 4 => 0.5, 5 => 1.0, 6 => 1e-6, 7 => 100.0, _ => c.rng.f01() };
            let al = match c.rng.below(6) { 0 => 0.0f32, 1 => 1.0, 2 => 0.1, 3 => 2.0, 4 => -0.5, _ => c.rng.f01() };
            let desc = |i: &PixelBuffer<Rgb>, p: f32| format!("{} parameter {} round {}", img_str(i), p, round);
            for inplace in [false, true] {
                let sn = if inplace { "add_salt_n_pepper_noise" } else { "salt_n_pepper_noise" };
                let r = run(|| if inplace { let mut b = img.clone(); ops::add_salt_n_pepper_noise(&mut b, th); b } else { ops::salt_n_pepper_noise(&img, th) }).and_then(|o| each(&img, &o, |p, q| {
                    let un = same(p, q);
                    let bw = q.data == [0.0, 0.0, 0.0, 1.0] || q.data == [1.0, 1.0, 1.0, 1.0];
                    if th <= 0.0 && !un { return Err("changed at threshold <= 0".into()); }
                    if th > 1.0 && !bw { return Err("not black or white at threshold > 1".into()); }
                    if !un && !bw { return Err("neither unchanged nor opaque black or white".into()); }
                    Ok(())
                }));
                c.case(sn, || desc(&img, th), r)?;
                let sn = if inplace { "add_rgb_noise" } else { "rgb_noise" };
                let r = run(|| if inplace { let mut b = img.clone(); ops::add_rgb_noise(&mut b, th); b } else { ops::rgb_noise(&img, th) }).and_then(|o| each(&img, &o, |p, q| {
                    let un = same(p, q);
                    let one = (0..3).any(|k| (0..4).all(|j| if j == k { q.data[j] == 1.0 } else { q.data[j].to_bits() == p.data[j].to_bits() }));
                    if th <= 0.0 && !un { return Err("changed at threshold <= 0".into()); }
                    if th > 1.0 && !one { return Err("no channel set to full at threshold > 1".into()); }
                    if !un && !one { return Err("neither unchanged nor one channel set to full".into()); }
                    Ok(())
                }));
                c.case(sn, || desc(&img, th), r)?;
                for gauss in [false, true] {
                    let sn = match (gauss, inplace) { (false, false) => "random_noise", (false, true) => "add_random_noise", (true, false) => "gaussian_noise", _ => "add_gaussian_noise" };
                    let r = run(|| match (gauss, inplace) {
                        (false, false) => ops::random_noise(&img, al),
                        (true, false) => ops::gaussian_noise(&img, al),
                        (false, true) => { let mut b = img.clone(); ops::add_random_noise(&mut b, al); b }
                        _ => { let mut b = img.clone(); ops::add_gaussian_noise(&mut b, al); b }
                    }).and_then(|o| each(&img, &o, |p, q| {
                        if p.data[3].to_bits() != q.data[3].to_bits() { return Err("alpha changed".into()); }
                        if !(0..3).all(|k| q.data[k] >= 0.0 && q.data[k] <= 1.0) { return Err("channel out of range".into()); }
                        if al == 0.0 && (0..3).any(|k| q.data[k] != p.data[k]) { return Err("changed at strength 0".into()); }
                        if !gauss && al > 0.0 && al <= 1.0 && (0..3).any(|k| { let (lo, hi) = ((1.0 - al) * p.data[k] - al, (1.0 - al) * p.data[k] + al); q.data[k] < lo.max(0.0) - 1e-5 || q.data[k] > hi.min(1.0) + 1e-5 }) { return Err("noise stronger than requested".into()); }
                        Ok(())
                    }));
                    c.case(sn, || desc(&img, al), r)?;
                }
            }
        }
    }
    // statistics that any sound draw must show on a large image: both outcomes appear, channels all appear
    let img = PixelBuffer::new_with_color(200, 200, Rgb::new(0.3, 0.4, 0.5));
    for (n, inplace) in [("salt_n_pepper_noise", false), ("add_salt_n_pepper_noise", true)] {
        let r = run(|| if inplace { let mut b = img.clone(); ops::add_salt_n_pepper_noise(&mut b, 0.3); b } else { ops::salt_n_pepper_noise(&img, 0.3) }).and_then(|o| {
            let k = o.data().iter().filter(|q| q.data[0] == 0.0).count();
            let wt = o.data().iter().filter(|q| q.data[0] == 1.0).count();
            if k < 5000 || wt < 5000 || k + wt > 39000 { Err(format!("{} black and {} white of 40000", k, wt)) } else { Ok(()) }
        });
        c.case(n, || "uniform 200x200, threshold 0.3".into(), r)?;
    }
    for (n, inplace) in [("rgb_noise", false), ("add_rgb_noise", true)] {
        let r = run(|| if inplace { let mut b = img.clone(); ops::add_rgb_noise(&mut b, 0.5); b } else { ops::rgb_noise(&img, 0.5) }).and_then(|o| {
            for k in 0..3 { let m = o.data().iter().filter(|q| q.data[k] == 1.0).count(); if m < 2000 { return Err(format!("channel {} set in {} of 40000", k, m)); } }
            Ok(())
        });
        c.case(n, || "uniform 200x200, threshold 0.5".into(), r)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C22
fn finite(o: &PixelBuffer<Rgb>, w: u32, h: u32) -> Result<(), String> {
    wf(o)?;
    if (o.width(), o.height()) != (w, h) { return Err(format!("result is {}x{}", o.width(), o.height())); }
    for (i, p) in o.data().iter().enumerate() {
        if p.data.iter().any(|v| !v.is_finite()) { return Err(format!("pixel {} is {:?}", i, p.data)); }
    }
    Ok(())
}
fn uniform(o: &PixelBuffer<Rgb>, col: &Rgb, tol: f32) -> Result<(), String> {
    for (i, p) in o.data().iter().enumerate() {
        for k in 0..4 {
            if (p.data[k] - col.data[k]).abs() > tol { return Err(format!("pixel {} of a uniform image {:?} became {:?}", i, col.data, p.data)); }
        }
    }
    Ok(())
}

pub fn c22(c: &mut Ctx) -> Res {
    let limit = c.budget(40.0, 400.0);
    let mut sizes: Vec<(u32, u32)> = c.sizes(false, if c.thorough { 900 } else { 300 });
    sizes.retain(|s| s.0 * s.1 <= 100 || (s.0 + s.1) % 3 == 0 || c.thorough);
    let rounds = if c.thorough { 200 } else { 100 };
    let sig = [None, Some(0.0f32), Some(1e-30), Some(1e-3), Some(0.5), Some(2.0), Some(100.0), Some(1e6)];
    for _ in 0..rounds {
        let ss = sizes.clone();
        for (w, h) in ss {
            if c.elapsed() > limit { break; }
            let uni = c.rng.chance(35);
            let mut img = if uni { let col = c.color01(); PixelBuffer::new_with_color(w, h, col) } else { c.image01(w, h) };
            if !uni && c.rng.chance(15) { for p in img.data_mut() { let v = if p.data[0] < 0.5 { 0.0 } else { 1.0 }; p.data = [v, v, v, 1.0]; } }
            if !uni && c.rng.chance(15) { for p in img.data_mut() { p.data[0] = 1.0; p.data[1] = 0.0; if p.data[3] < 0.5 { p.data[2] = 1.0 } else { p.data[2] = 0.0 } } }
            // mostly one saturated colour with a few grays
            if !uni && c.rng.chance(30) {
                let k = *c.rng.pick(&[0usize, 1, 2, 2, 2]);
                let g = *c.rng.pick(&[0.18f32, 0.18, 0.19, 0.17, 0.15, 0.0, 0.5, 1.0]);
                for p in img.data_mut() { if p.data[0] < 0.05 { p.data = [g, g, g, 1.0]; } else { p.data = [0.0, 0.0, 0.0, 1.0]; p.data[k] = 1.0; } }
                let at = c.rng.below(img.data().len() as u64) as usize;
                img.data_mut()[at].data = [g, g, g, 1.0];
            }
            let col = img.data()[0];
            let uni = img.data().iter().all(|p| same(p, &col));
            let f = c.floats.clone();
            let fp = if f.is_empty() || c.rng.chance(50) { c.rng.f01() } else { *c.rng.pick(&f) };
            // blur
            let radius = *c.rng.pick(&[0u32, 1, 1, 2, 2, 3, 3, 4, 5, 7, 10]);
            let s = *c.rng.pick(&sig);
            let r = run(|| ops::gaussian_blur(&img, radius, s)).and_then(|o| {
                finite(&o, w, h)?;
                if uni { uniform(&o, &col, 1e-5)?; }
                let rr = radius as i64;
                for y in 0..h as i64 { for x in 0..w as i64 {
                    let q = at(&o, x as u32, y as u32);
                    let (mut lo, mut hi) = ([f32::MAX; 4], [f32::MIN; 4]);
                    for dy in -rr..=rr { for dx in -rr..=rr { let p = clamped(&img, x + dx, y + dy); for k in 0..4 { lo[k] = lo[k].min(p.data[k]); hi[k] = hi[k].max(p.data[k]); } } }
                    for k in 0..4 { if q.data[k] < lo[k] - 1e-5 || q.data[k] > hi[k] + 1e-5 { return Err(format!("blurred pixel ({}, {}) channel {} is {}, its neighbourhood spans {}..{}", x, y, k, q.data[k], lo[k], hi[k])); } }
                } }
                Ok(())
            });
            c.case("gaussian_blur", || format!("radius {} sigma {:?} {}", radius, s, img_str(&img)), r)?;
            let factor = *c.rng.pick(&[0.0f32, 0.5, 1.0, 4.0, 100.0, -1.0]);
            let r = run(|| ops::unsharp(&img, radius, factor, s)).and_then(|o| { finite(&o, w, h)?; if uni { uniform(&o, &col, 1e-5 * (1.0 + factor.abs()))? } Ok(()) });
            c.case("unsharp", || format!("radius {} factor {} sigma {:?} {}", radius, factor, s, img_str(&img)), r)?;
            // edge detection
            for m in [EdgeDetection::Sobel, EdgeDetection::Laplace] {
                let r = run(|| ops::edge_detection(&img, m)).and_then(|o| finite(&o, w, h));
                c.case("edge_detection", || format!("{:?} {}", m, img_str(&img)), r)?;
            }
            // despeckle
            let th = *c.rng.pick(&[0.0f32, 0.05, 0.1, 0.15, 0.2, 0.5, 0.9, 1.0, 1.1, 2.0]);
            let am = *c.rng.pick(&[0u8, 1, 2, 4, 7, 8, 9, 10, 255]);
            let r = run(|| ops::despeckle(&img, th, am)).and_then(|o| { finite(&o, w, h)?; if uni { uniform(&o, &col, 1e-5)? } Ok(()) });
            c.case("despeckle", || format!("threshold {} amount {} {}", th, am, img_str(&img)), r)?;
            // snn
            let rad = *c.rng.pick(&[0usize, 1, 2, 3, 5, 9]);
            for wc in [false, true] {
                let r = run(|| ops::symmetric_nearest_neighbor(&img, rad, wc)).and_then(|o| { finite(&o, w, h)?; if uni { uniform(&o, &col, 1e-5)? } Ok(()) });
                c.case("symmetric_nearest_neighbor", || format!("radius {} with_center {} {}", rad, wc, img_str(&img)), r)?;
            }
            // drawing
            if c.rng.chance(if c.thorough { 100 } else { 40 }) {
                let m = *c.rng.pick(&[DrawingMode::Gray, DrawingMode::Colored, DrawingMode::ReducedColors]);
                let rad = *c.rng.pick(&[0u32, 1, 2, 5, 10, 20]);
                let r = run(|| ops::drawing(&img, rad, m)).and_then(|o| finite(&o, w, h));
                c.case("drawing", || format!("{:?} radius {} {}", m, rad, img_str(&img)), r)?;
            }
            for m in [EqualizeMode::Rgb, EqualizeMode::Srgb, EqualizeMode::Saturation, EqualizeMode::Lightness, EqualizeMode::SaturationLightness] {
                let r = run(|| ops::equalize(&img, m)).and_then(|o| finite(&o, w, h));
                c.case("equalize", || format!("{:?} {}", m, img_str(&img)), r)?;
            }
            let th = match c.rng.below(7) { 0 => 0.0f32, 1 => 0.1, 2 => 1.0, 3 => 500.0, 4 => 1000.0, 5 => 2000.0, _ => fp };
            let r = run(|| ops::stretch_contrast(&img, th)).and_then(|o| finite(&o, w, h));
            c.case("stretch_contrast", || format!("threshold {} {}", th, img_str(&img)), r)?;
            for m in [BalanceMode::Rgb, BalanceMode::Srgb, BalanceMode::Hsv, BalanceMode::Hsl, BalanceMode::Lch] {
                let r = run(|| ops::balance(&img, m, th)).and_then(|o| finite(&o, w, h));
                c.case("balance", || format!("{:?} threshold {} {}", m, th, img_str(&img)), r)?;
            }
            let temps = [1000.0f32, 1001.0, 1999.0, 2000.0, 2500.0, 3000.0, 6499.0, 6500.0, 6600.0, 11999.0, 12000.0, 0.0, -5.0, 500.0, 20000.0, 1e9];
            let (t1, t2) = (if c.rng.chance(60) { *c.rng.pick(&temps) } else { 1000.0 + c.rng.f01() * 11000.0 }, if c.rng.chance(60) { *c.rng.pick(&temps) } else { 1000.0 + c.rng.f01() * 11000.0 });
            let tint = *c.rng.pick(&[0.0f32, 0.1, 0.5, 1.0, 2.0, -1.0]);
            let r = run(|| ops::change_color_temperature(&img, t1, t2, tint)).and_then(|o| finite(&o, w, h));
            c.case("change_color_temperature", || format!("{} -> {} tint {} {}", t1, t2, tint, img_str(&img)), r)?;
            let fa = *c.rng.pick(&[0.0f32, 0.25, 0.5, 1.0, 2.0, -1.0]);
            let r = run(|| ops::optimize_color_temperature(&img, fa, tint)).and_then(|o| finite(&o, w, h));
            c.case("optimize_color_temperature", || format!("factor {} tint {} {}", fa, tint, img_str(&img)), r)?;
            let off = *c.rng.pick(&[0.0f32, 0.0, 0.01, 0.02, 0.05, 0.1, 0.3, 0.5, 0.75, 1.0, 2.0]);
            for m in [SaturationMode::Hsl, SaturationMode::Hsv, SaturationMode::Lch] {
                let r = run(|| ops::optimize_saturation(&img, off, m)).and_then(|o| finite(&o, w, h));
                c.case("optimize_saturation", || format!("{:?} offset {} {}", m, off, img_str(&img)), r)?;
            }
            let lf = *c.rng.pick(&[0.0f32, 0.25, 0.5, 1.0, 1.5]);
            let r = run(|| ops::optimize_lightness(&img, lf)).and_then(|o| finite(&o, w, h));
            c.case("optimize_lightness", || format!("factor {} {}", lf, img_str(&img)), r)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C27
pub fn c27(c: &mut Ctx) -> Res {
    let limit = c.budget(25.0, 250.0);
    let mut sizes: Vec<(u32, u32)> = c.sizes(false, if c.thorough { 900 } else { 300 });
    sizes.retain(|s| s.0 * s.1 <= 100 || (s.0 + s.1) % 3 == 0 || c.thorough);
    let sig = [None, Some(0.0f32), Some(1e-30), Some(1e-3), Some(0.5), Some(2.0), Some(100.0), Some(1e6)];
    for _ in 0..(if c.thorough { 80 } else { 30 }) {
        for (w, h) in sizes.clone() {
            if c.elapsed() > limit { break; }
            let uni = c.rng.chance(50);
            let mut img = if uni { let col = c.color01(); PixelBuffer::new_with_color(w, h, col) } else { c.image01(w, h) };
            if !uni && c.rng.chance(25) { for p in img.data_mut() { let v = if p.data[0] < 0.5 { 0.0 } else { 1.0 }; p.data = [v, v, v, 1.0]; } }
            if !uni && c.rng.chance(15) { for p in img.data_mut() { p.data[0] = 1.0; p.data[1] = 0.0; if p.data[3] < 0.5 { p.data[2] = 1.0 } else { p.data[2] = 0.0 } } }
            let col = img.data()[0];
            let uni = img.data().iter().all(|p| same(p, &col));
            let unit = |o: &PixelBuffer<Rgb>| -> Result<(), String> {
                if o.width() != w || o.height() != h { return Err(format!("result is {}x{}", o.width(), o.height())); }
                for p in o.data() { for k in 0..4 { if !(p.data[k] >= -1e-5 && p.data[k] <= 1.0 + 1e-5) { return Err(format!("channel {} of the result is {}", k, p.data[k])); } } }
                Ok(())
            };
            let radius = *c.rng.pick(&[0u32, 1, 1, 2, 2, 3, 3, 4, 5, 7, 10]);
            let s = *c.rng.pick(&sig);
            let r = run(|| ops::gaussian_blur(&img, radius, s)).and_then(|o| {
                unit(&o)?;
                if uni { uniform(&o, &col, 1e-5)?; }
                let rr = radius as i64;
                for y in 0..h as i64 { for x in 0..w as i64 {
                    let q = at(&o, x as u32, y as u32);
                    let (mut lo, mut hi) = ([f32::MAX; 4], [f32::MIN; 4]);
                    for dy in -rr..=rr { for dx in -rr..=rr { let p = clamped(&img, x + dx, y + dy); for k in 0..4 { lo[k] = lo[k].min(p.data[k]); hi[k] = hi[k].max(p.data[k]); } } }
                    for k in 0..4 { if q.data[k] < lo[k] - 1e-5 || q.data[k] > hi[k] + 1e-5 { return Err(format!("blurred pixel ({}, {}) channel {} is {}, its neighbourhood spans {}..{}", x, y, k, q.data[k], lo[k], hi[k])); } }
                } }
                Ok(())
            });
            c.case("gaussian_blur", || format!("radius {} sigma {:?} {}", radius, s, img_str(&img)), r)?;
            let factor = *c.rng.pick(&[0.0f32, 0.5, 1.0, 4.0, 100.0, -1.0]);
            let r = run(|| ops::unsharp(&img, radius, factor, s)).and_then(|o| { finite(&o, w, h)?; if uni { uniform(&o, &col, 1e-5 * (1.0 + factor.abs()))? } Ok(()) });
            c.case("unsharp", || format!("radius {} factor {} sigma {:?} {}", radius, factor, s, img_str(&img)), r)?;
            let th = *c.rng.pick(&[0.0f32, 0.05, 0.1, 0.15, 0.2, 0.5, 0.9, 1.0, 1.1, 2.0]);
            let am = *c.rng.pick(&[0u8, 1, 2, 4, 7, 8, 9, 10, 255]);
            let r = run(|| ops::despeckle(&img, th, am)).and_then(|o| { unit(&o)?; if uni { uniform(&o, &col, 1e-5)? } Ok(()) });
            c.case("despeckle", || format!("threshold {} amount {} {}", th, am, img_str(&img)), r)?;
            let rad = *c.rng.pick(&[0usize, 1, 2, 3, 5, 9]);
            for wc in [false, true] {
                let r = run(|| ops::symmetric_nearest_neighbor(&img, rad, wc)).and_then(|o| { unit(&o)?; if uni { uniform(&o, &col, 1e-5)? } Ok(()) });
                c.case("symmetric_nearest_neighbor", || format!("radius {} with_center {} {}", rad, wc, img_str(&img)), r)?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C23
pub fn c23(c: &mut Ctx) -> Res {
    let sizes = c.small_sizes(true);
    let limit = c.budget(15.0, 150.0);
    for _ in 0..(if c.thorough { 40 } else { 8 }) {
        for &(w, h) in &sizes {
            if c.elapsed() > limit { break; }
            let img0 = c.image01(w, h);
            let pn = *c.rng.pick(&[1u32, 2, 3, 4, 7, 16, 17, 64, 257]);
            let ph = *c.rng.pick(&[1u32, 1, 2, 3]);
            if (w * h) as u64 * (pn * ph) as u64 > 200_000 { continue; }
            let mut pal = c.image01(pn, ph);
            if c.rng.chance(25) {
                // duplicates of one colour with different alpha: the first must win
                let a = pal.data()[0];
                for (i, p) in pal.data_mut().iter_mut().enumerate() { if i % 2 == 0 { *p = a; p.data[3] = (i as f32 + 1.0) / 1000.0; } }
            }
            let mut img = img0;
            if c.rng.chance(40) {
                // pixels drawn from the palette
                let n = pal.data().len() as u64;
                for p in img.data_mut() { *p = pal.data()[c.rng.below(n) as usize]; }
            }
            let plab: Vec<Lab<D65, O2>> = pal.data().iter().map(|p| p.to_lab()).collect();
            let d2 = |a: &Lab<D65, O2>, b: &Lab<D65, O2>| -> f64 { (0..3).map(|k| { let d = a.data[k] as f64 - b.data[k] as f64; d * d }).sum() };
            for inplace in [false, true] {
                let r = run(|| if inplace { let mut b = img.clone(); ops::apply_palette_in_place(&mut b, &pal); b } else { ops::apply_palette(&img, &pal) }).and_then(|o| each(&img, &o, |p, q| {
                    let pl: Lab<D65, O2> = p.to_lab();
                    let best = plab.iter().map(|l| d2(&pl, l)).fold(f64::MAX, f64::min);
                    // the result must be (the conversion of) a palette entry whose distance is minimal up to rounding; exact ties go to the first
                    let mut first_exact: Option<Rgb> = None;
                    let mut ok = false;
                    for l in &plab {
                        let d = d2(&pl, l);
                        if d <= best + 1e-9 + best * 1e-5 {
                            let e = l.to_rgb();
                            if same(&e, q) { ok = true; }
                            if first_exact.is_none() && d == best { first_exact = Some(e); }
                        }
                    }
                    if !ok { return Err(format!("not a palette colour at the smallest distance {}", best.sqrt())); }
                    // equal entries (up to alpha) tie exactly: the first of them must be taken
                    let qi: Vec<usize> = (0..plab.len()).filter(|i| same(&plab[*i].to_rgb(), q)).collect();
                    let j = (0..plab.len()).find(|j| qi.iter().any(|i| (0..3).all(|k| plab[*i].data[k] == plab[*j].data[k])));
                    if let Some(j) = j { if !same(&plab[j].to_rgb(), q) { return Err(format!("entry {} ties and comes first", j)); } }
                    Ok(())
                }));
                c.case(if inplace { "apply_palette_in_place" } else { "apply_palette" }, || format!("palette {} image {}", img_str(&pal), img_str(&img)), r)?;
            }
            // a pixel that is a palette colour stays
            let r = run(|| ops::apply_palette(&pal, &pal)).and_then(|o| each(&pal, &o, |p, q| {
                if (0..3).any(|k| (p.data[k] - q.data[k]).abs() > 2e-4) { Err("palette colour not kept".into()) } else { Ok(()) }
            }));
            c.case("apply_palette", || format!("palette on itself {}", img_str(&pal)), r)?;
            // palette in another colour space
            let hp = pal.to_hsv();
            let hlab: Vec<Lab<D65, O2>> = hp.data().iter().map(|p| p.to_lab()).collect();
            let r = run(|| ops::apply_palette(&img, &hp)).and_then(|o| each(&img, &o, |p, q| {
                let pl: Lab<D65, O2> = p.to_lab();
                let best = hlab.iter().map(|l| d2(&pl, l)).fold(f64::MAX, f64::min);
                if hlab.iter().any(|l| d2(&pl, l) <= best + 1e-9 + best * 1e-5 && same(&l.to_rgb(), q)) { Ok(()) } else { Err("not a nearest palette colour".into()) }
            }));
            c.case("apply_palette", || "hsv palette".into(), r)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C19
fn fm(c: &mut Ctx) -> FilterMode {
    *c.rng.pick(&[FilterMode::Nearest, FilterMode::Bilinear, FilterMode::Bicubic, FilterMode::Lanczos3, FilterMode::Auto])
}
fn cmd_step(k: u64, c: &mut Ctx, q: Queue, img: Option<&mut Image>, builder: bool) -> (Queue, String) {
    let p = if c.rng.chance(30) && !c.floats.is_empty() { let f = c.floats.clone(); *c.rng.pick(&f) } else { c.rng.f01() * 2.0 };
    let p2 = c.rng.f01() * 0.6 + 0.1;
    let p3 = c.rng.f01() + 0.3;
    let it = *c.rng.pick(&[Intensity::Average, Intensity::Rec601Luma, Intensity::Rec709Luma, Intensity::Brightness, Intensity::Lightness, Intensity::Saturation, Intensity::Red, Intensity::Green, Intensity::Blue]);
    let f = fm(c);
    let th = *c.rng.pick(&[0.0f32, -1.0]);
    macro_rules! go { ($b:expr, $cmd:expr, $op:expr) => {{
        let q = if builder { $b(q) } else { let mut q = q; q.push($cmd); q };
        if let Some(i) = img { let op: &dyn Fn(&mut Image) = &$op; op(i); }
        (q, format!("{:?}", $cmd))
    }}; }
    match k {
        0 => go!(|q: Queue| q.to_gray(it), Cmd::ToGray(it), |i| i.mod_colors(|c| c.to_gray_with_intensity(it))),
        1 => go!(|q: Queue| q.invert(), Cmd::Invert, |i| i.mod_colors(|c| c.invert())),
        2 => { let p = p + 0.05; go!(|q: Queue| q.gamma(p), Cmd::Gamma(p), |i| i.mod_colors(|c| c.with_gamma(p))) }
        3 => { let (b, w) = (p2 * 0.5, p2 * 0.5 + 0.3); go!(|q: Queue| q.level(b, w, p3), Cmd::Level { black_point: b, white_point: w, gamma: p3 }, |i| i.mod_colors(|c| c.with_level(b, w, p3))) }
        4 => go!(|q: Queue| q.brightness(p3), Cmd::Brightness(p3), |i| i.mod_colors(|c| c.with_brightness(p3))),
        5 => go!(|q: Queue| q.contrast(p3), Cmd::Contrast(p3), |i| i.mod_colors(|c| c.with_contrast(p3))),
        6 => go!(|q: Queue| q.brightness_contrast(p3, p2 + 0.6), Cmd::BrightnessContrast { brightness: p3, contrast: p2 + 0.6 }, |i| i.mod_colors(|c| c.with_brightness_contrast(p3, p2 + 0.6))),
        7 => go!(|q: Queue| q.saturation(p), Cmd::Saturation(p), |i| i.mod_colors(|c| c.with_saturation(p))),
        8 => go!(|q: Queue| q.stretch_saturation(p), Cmd::StretchSaturation(p), |i| i.mod_colors(|c| c.stretch_saturation(p))),
        9 => go!(|q: Queue| q.lightness(p3), Cmd::Lightness(p3), |i| i.mod_colors(|c| c.with_lightness(p3))),
        10 => go!(|q: Queue| q.hue_rotate(p), Cmd::HueRotate(p), |i| i.mod_colors(|c| c.with_hue_rotate(p))),
        11 => { let a = p * 3.0; go!(|q: Queue| q.rotate(a, f), Cmd::Rotate { radians: a, filter: f }, |i| { let n = i.rotate(a, f); *i = n; }) }
        12 => { go!(|q: Queue| q.with(Cmd::SaltNPepperNoise(th)), Cmd::SaltNPepperNoise(th), |_i| {}) }
        13 => { go!(|q: Queue| q.with(Cmd::RgbNoise(th)), Cmd::RgbNoise(th), |_i| {}) }
        14 => go!(|q: Queue| q.with(Cmd::RandomNoise(0.0)), Cmd::RandomNoise(0.0), |i| i.mod_colors(|c| c.map_color_channels(|v| v))),
        _ => go!(|q: Queue| q.silent(), Cmd::Silent, |_i| {}),
    }
}
const NCMD: u64 = 16;

pub fn c19(c: &mut Ctx) -> Res {
    let dir = c.scratch.join("c19");
    let _ = std::fs::create_dir_all(&dir);
    let limit = c.budget(20.0, 200.0);
    let rounds = if c.thorough { 4000 } else { 500 };
    let inputs: Vec<std::path::PathBuf> = (0..4).map(|i| dir.join(format!("in{}.png", i))).collect();
    let err = |s: String| Err(s);
    for round in 0..rounds {
        if c.elapsed() > limit { break; }
        for p in &inputs {
            let (w, h) = (c.rng.range(1, 9) as u32, c.rng.range(1, 9) as u32);
            let im = Image::new_from_buffer(c.image01(w, h));
            if let Err(e) = im.save(p) { return c.case("setup", || "scratch".into(), err(e.to_string())); }
        }
        let silent_first = !c.rng.chance(10);
        let mut q = if c.rng.chance(50) { Queue::new() } else { Queue::default() };
        let mut desc: Vec<String> = vec![];
        let mut model: Option<Image> = None;
        let mut expected: Vec<(std::path::PathBuf, Option<Vec<u8>>)> = vec![]; // outputs in order; None = must not exist
        let mut fail: Option<&str> = None;
        let mut count = 0usize;
        if silent_first { q = q.silent(); count += 1; }
        let n = c.rng.range(1, if round < 2 * NCMD as i64 { 3 } else { 12 });
        let force = if (round as u64) < 2 * NCMD { Some(round as u64 % NCMD) } else { None };
        let skip_open = c.rng.chance(8);
        let mut nout = 0;
        for step in 0..n + 2 {
            let builder = c.rng.chance(60);
            let kind = if step == 0 && !skip_open { 0 } else if step == n + 1 { 1 } else if force.is_some() && step == 1 { 9 } else { match c.rng.below(20) { 0 => 0, 1 | 2 => 1, 3 => if c.rng.chance(40) { 2 } else { 9 }, 4 => if c.rng.chance(40) { 3 } else { 9 }, 5 => if c.rng.chance(30) { 4 } else { 9 }, _ => 9 } };
            count += 1;
            match kind {
                0 => {
                    let p = c.rng.pick(&inputs).clone();
                    desc.push(format!("Open({:?})", p.file_name().unwrap()));
                    q = if builder { q.open(p.clone()) } else { q.with(Cmd::Open(p.clone())) };
                    if fail.is_none() { match Image::open(&p) { Ok(i) => model = Some(i), Err(e) => return c.case("setup", || "open".into(), err(e.to_string())) } }
                }
                1 => {
                    let ext = *c.rng.pick(&["png", "bmp"]);
                    let p = dir.join(format!("out{}_{}.{}", round, nout, ext));
                    nout += 1;
                    desc.push(format!("Save({:?})", p.file_name().unwrap()));
                    q = if builder { q.save(p.clone()) } else { q.with(Cmd::Save(p.clone())) };
                    if fail.is_none() {
                        match &model {
                            Some(i) => { let f = dir.join(format!("ref.{}", ext)); if let Err(e) = i.save(&f) { return c.case("setup", || "save".into(), err(e.to_string())); } expected.push((p, std::fs::read(&f).ok())); }
                            None => { fail = Some("missing"); expected.push((p, None)); }
                        }
                    } else { expected.push((p, None)); }
                }
                2 => { let p = dir.join("does_not_exist.png"); desc.push("Open(missing file)".into()); q = q.open(p); if fail.is_none() { fail = Some("decoding"); } }
                3 => { let p = dir.join("no_such_dir").join("x.png"); desc.push("Save(no such directory)".into()); q = q.save(p); if fail.is_none() { fail = Some(if model.is_some() { "encoding" } else { "missing" }); } }
                4 => { let p = dir.join("x.unknown"); desc.push("Save(unknown extension)".into()); q = q.save(p); if fail.is_none() { fail = Some(if model.is_some() { "encoding" } else { "missing" }); } }
                _ => {
                    let k = force.filter(|_| step == 1).unwrap_or_else(|| c.rng.below(NCMD));
                    let target = if fail.is_none() { model.as_mut() } else { None };
                    let no_image = fail.is_none() && target.is_none();
                    let (q2, d) = cmd_step(k, c, q, target, builder);
                    q = q2;
                    if no_image && k != 15 { fail = Some("missing"); }
                    desc.push(d);
                }
            }
            if q.len() != count || q.is_empty() {
                let l = q.len();
                return c.case("Queue::len", || desc.join("; "), err(format!("{} commands queued, expected {}", l, count)));
            }
        }
        let r = run(|| q.run()).and_then(|r| {
            let got = match &r { Ok(()) => None, Err(CommandError::MissingImage) => Some("missing"), Err(CommandError::Decoding(_)) => Some("decoding"), Err(CommandError::Encoding(_)) => Some("encoding") };
            if got != fail { return Err(format!("returned {:?}, expected failure {:?}", got, fail)); }
            for (p, want) in &expected {
                let have = std::fs::read(p).ok();
                match (want, have) {
                    (None, None) => {}
                    (None, Some(_)) => return Err(format!("{:?} was written although an earlier command failed", p.file_name().unwrap())),
                    (Some(_), None) => return Err(format!("{:?} was not written", p.file_name().unwrap())),
                    (Some(a), Some(b)) => if *a != b { return Err(format!("{:?} differs from applying the operations by hand", p.file_name().unwrap())); },
                }
            }
            Ok(())
        });
        for (p, _) in &expected { let _ = std::fs::remove_file(p); }
        c.case("Queue::run", || desc.join("; "), r)?;
    }
    // commands that change pixels at random still run exactly once, in order: full thresholds have visible outcomes
    for (cmd, pred) in [(0, "black or white"), (1, "one channel full")] {
        let im = Image::new_with_color(6, 5, Rgb::new(0.2, 0.3, 0.4));
        let (i, o) = (dir.join("n_in.png"), dir.join("n_out.png"));
        let _ = im.save(&i);
        let r = run(|| Queue::new().silent().open(&i).with(if cmd == 0 { Cmd::SaltNPepperNoise(2.0) } else { Cmd::RgbNoise(2.0) }).save(&o).run()).and_then(|r| { r.map_err(|e| e.to_string())?; let out = Image::open(&o).map_err(|e| e.to_string())?;
            for q in out.data() {
                let ok = if cmd == 0 { q.data == [0.0, 0.0, 0.0, 1.0] || q.data == [1.0; 4] } else { (0..3).filter(|k| q.data[*k] == 1.0).count() == 1 };
                if !ok { return Err(format!("pixel {:?} is not {}", q.data, pred)); }
            }
            Ok(()) });
        c.case("noise command", || pred.into(), r)?;
    }
    // random noise strength reaches the image
    {
        let im = Image::new_with_color(30, 30, Rgb::new(0.5, 0.5, 0.5));
        let (i, o) = (dir.join("r_in.png"), dir.join("r_out.png"));
        let _ = im.save(&i);
        for a in [0.02f32, 0.9] {
            let r = run(|| Queue::new().silent().open(&i).with(Cmd::RandomNoise(a)).save(&o).run()).and_then(|r| { r.map_err(|e| e.to_string())?; let out = Image::open(&o).map_err(|e| e.to_string())?;
                let m = out.data().iter().map(|q| (q.data[0] - 0.5).abs()).fold(0.0f32, f32::max);
                if m > 1.5 * a + 0.02 || m < 0.3 * a { return Err(format!("strength {} moved pixels by up to {}", a, m)); }
                Ok(()) });
            c.case("noise command", || format!("RandomNoise({})", a), r)?;
        }
    }
    let r = run(|| Queue::new().run()).and_then(|r| r.map_err(|e| e.to_string()));
    c.case("Queue::run", || "empty queue".into(), r)?;
    Ok(())
}

// ---------------------------------------------------------------- C24
pub fn c24(c: &mut Ctx) -> Res {
    let sizes: Vec<(u32, u32)> = c.small_sizes(false).into_iter().filter(|s| s.0 * s.1 <= 400).collect();
    let limit = c.budget(20.0, 200.0);
    for round in 0..(if c.thorough { 60 } else { 8 }) {
        for &(w, h) in &sizes {
            if c.elapsed() > limit { break; }
            let buf = c.image01(w, h);
            let img = Image::new_from_buffer(buf.clone());
            let orig = buf.clone();
            let f = fm(c);
            let (a, b, d, e) = (c.rng.below(w as u64 + 3) as u32, c.rng.below(h as u64 + 3) as u32, c.rng.below(w as u64 + 3) as u32, c.rng.below(h as u64 + 3) as u32);
            let t = c.rng.f01();
            let t2 = c.rng.f01() + 0.2;
            let ang = c.rng.f01() * 6.3;
            let other = { let (w2, h2) = (c.rng.range(1, 9) as u32, c.rng.range(1, 9) as u32); c.image01(w2, h2) };
            let oimg = Image::new_from_buffer(other.clone());
            macro_rules! eqv { ($name:expr, $m:expr, $o:expr) => {{
                let r = run(|| { let mi = $m; let ob = $o; (mi, ob) }).and_then(|(mi, ob): (Image, PixelBuffer<Rgb>)| { same_img(mi.buffer(), &ob)?; same_img(img.buffer(), &orig).map_err(|e| format!("the original image changed: {}", e)) });
                c.case($name, || format!("{} args {} {} {} {} {} {} {} {:?}", img_str(&orig), a, b, d, e, t, t2, ang, f), r)?;
            }}; }
            eqv!("Image::crop", img.crop(a, b, d, e), ops::crop(&buf, a, b, d, e));
            eqv!("Image::flip_horizontal", img.flip_horizontal(), ops::flip_horizontal(&buf));
            eqv!("Image::flip_vertical", img.flip_vertical(), ops::flip_vertical(&buf));
            eqv!("Image::rotate90", img.rotate90(), ops::rotate90(&buf));
            eqv!("Image::rotate180", img.rotate180(), ops::rotate180(&buf));
            eqv!("Image::rotate270", img.rotate270(), ops::rotate270(&buf));
            eqv!("Image::rotate", img.rotate(ang, f), ops::rotate(&buf, ang, Rgb::NONE, f));
            // images derived from an image keep its background: rotating them fills with it
            eqv!("Image::rotate", img.flip_horizontal().rotate(ang, f), ops::rotate(&ops::flip_horizontal(&buf), ang, Rgb::NONE, f));
            eqv!("Image::edge_detection", img.edge_detection(EdgeDetection::Sobel), ops::edge_detection(&buf, EdgeDetection::Sobel));
            eqv!("Image::edge_detection", img.edge_detection(EdgeDetection::Laplace), ops::edge_detection(&buf, EdgeDetection::Laplace));
            eqv!("Image::resize", img.resize(d + 1, e + 1, f), ops::resize(&buf, d + 1, e + 1, f));
            let rad = c.rng.below(4) as u32;
            eqv!("Image::gaussian_blur", img.gaussian_blur(rad, Some(t2)), ops::gaussian_blur(&buf, rad, Some(t2)));
            eqv!("Image::gaussian_blur", img.gaussian_blur(rad, None), ops::gaussian_blur(&buf, rad, None));
            eqv!("Image::unsharp", img.unsharp(rad, t, Some(t2)), ops::unsharp(&buf, rad, t, Some(t2)));
            eqv!("Image::unsharp", img.unsharp(rad, t, None), ops::unsharp(&buf, rad, t, None));
            eqv!("Image::balance", img.balance(BalanceMode::Hsl, t), ops::balance(&buf, BalanceMode::Hsl, t));
            eqv!("Image::balance", img.balance(BalanceMode::Rgb, t * 100.0), ops::balance(&buf, BalanceMode::Rgb, t * 100.0));
            eqv!("Image::compose", Image::compose([&img, &oimg], Rgb::RED, |x, y, [p, q]| Rgb { data: [p.data[0], q.data[1], x as f32, y as f32] }), ops::compose([&buf, &other], Rgb::RED, |x, y, [p, q]| Rgb { data: [p.data[0], q.data[1], x as f32, y as f32] }));
            eqv!("Image::compose_slice", Image::compose_slice(&[&img, &oimg], Rgb::GREEN, |x, y, v| Rgb { data: [v[0].data[0], v[1].data[1], x as f32, y as f32] }), ops::compose_slice(&[&buf, &other], Rgb::GREEN, |x, y, v| Rgb { data: [v[0].data[0], v[1].data[1], x as f32, y as f32] }));
            eqv!("Image::try_compose", Image::try_compose::<(), _, 2>([&oimg, &img], Rgb::RED, |_, _, [p, q]| Ok(Rgb { data: [p.data[0], q.data[1], 0.5, 1.0] })).unwrap(), ops::compose([&other, &buf], Rgb::RED, |_, _, [p, q]| Rgb { data: [p.data[0], q.data[1], 0.5, 1.0] }));
            eqv!("Image::try_compose_slice", Image::try_compose_slice::<(), _>(&[&oimg, &img], Rgb::RED, |_, _, v| Ok(Rgb { data: [v[0].data[0], v[1].data[1], 0.5, 1.0] })).unwrap(), ops::compose([&other, &buf], Rgb::RED, |_, _, [p, q]| Rgb { data: [p.data[0], q.data[1], 0.5, 1.0] }));
            let r = run(|| Image::try_compose::<(u32, u32), _, 2>([&oimg, &img], Rgb::RED, |x, y, _| Err((x, y)))).and_then(|r| match r { Err((0, 0)) => Ok(()), Err(p) => Err(format!("error of {:?}", p)), Ok(_) => Err("no error".into()) });
            c.case("Image::try_compose", || "always failing".into(), r)?;
            for op in ["normal", "addition", "subtract", "darken", "lighten", "hsl_darken", "lch_hue"] {
                let mk = || op.parse::<BlendOp>().unwrap();
                eqv!("Image::blend", img.blend(&oimg, mk(), t), ops::blend_image(&buf, &other, mk(), t));
            }
            if round == 0 && w * h < 60 {
                for m in [DrawingMode::Gray, DrawingMode::Colored, DrawingMode::ReducedColors] { eqv!("Image::drawing", img.drawing(rad + 1, m), ops::drawing(&buf, rad + 1, m)); }
            }
            eqv!("Image::interlace", img.interlace(a), ops::interlace(&buf, a));
            eqv!("Image::apply_palette", img.apply_palette(&oimg), ops::apply_palette(&buf, &other));
            eqv!("Image::apply_palette_in_place", { let mut i = Image::new_from_buffer(buf.clone()); i.apply_palette_in_place(&oimg); i }, ops::apply_palette(&buf, &other));
            let am = c.rng.below(11) as u8;
            eqv!("Image::despeckle", img.despeckle(t, am), ops::despeckle(&buf, t, am));
            eqv!("Image::stretch_contrast", img.stretch_contrast(t * 300.0), ops::stretch_contrast(&buf, t * 300.0));
            for m in [SaturationMode::Hsl, SaturationMode::Hsv, SaturationMode::Lch] { eqv!("Image::optimize_saturation", img.optimize_saturation(t, m), ops::optimize_saturation(&buf, t, m)); }
            let (k1, k2) = (1000.0 + t * 9000.0, 1000.0 + t2 * 9000.0);
            eqv!("Image::change_color_temperature", img.change_color_temperature(k1, k2, t), ops::change_color_temperature(&buf, k1, k2, t));
            eqv!("Image::optimize_color_temperature", img.optimize_color_temperature(t2, t), ops::optimize_color_temperature(&buf, t2, t));
            eqv!("Image::optimize_lightness", img.optimize_lightness(t), ops::optimize_lightness(&buf, t));
            for m in [EqualizeMode::Rgb, EqualizeMode::Srgb, EqualizeMode::Saturation, EqualizeMode::Lightness, EqualizeMode::SaturationLightness] { eqv!("Image::equalize", img.equalize(m), ops::equalize(&buf, m)); }
            let sr = c.rng.below(4) as usize;
            for wc in [false, true] { eqv!("Image::symmetric_nearest_neighbor", img.symmetric_nearest_neighbor(sr, wc), ops::symmetric_nearest_neighbor(&buf, sr, wc)); }
            if w * h < 100 {
                let q = c.rng.range(10, 100) as u8;
                for pa in [false, true] { eqv!("Image::with_jpeg_quality", img.with_jpeg_quality(q, pa), ops::jpeg_quality(&buf, q, pa)); }
            }
            eqv!("Image::white_balance", img.white_balance(t * 10.0), ops::balance(&buf, BalanceMode::Rgb, t * 10.0));
            // noise: outcomes at degenerate strengths, and the right kind of noise
            eqv!("Image::random_noise", img.random_noise(0.0), buf.clone());
            eqv!("Image::gaussian_noise", img.gaussian_noise(0.0), buf.clone());
            eqv!("Image::salt_n_pepper_noise", img.salt_n_pepper_noise(0.0), buf.clone());
            eqv!("Image::rgb_noise", img.rgb_noise(0.0), buf.clone());
            for k in 0..4 {
                let r = run(|| { let mut i2 = Image::new_from_buffer(buf.clone()); let o = match k { 0 => { i2.add_salt_n_pepper_noise(2.0); img.salt_n_pepper_noise(2.0) } 1 => { i2.add_rgb_noise(2.0); img.rgb_noise(2.0) } 2 => { i2.add_random_noise(t); img.random_noise(t) } _ => { i2.add_gaussian_noise(t); img.gaussian_noise(t) } }; (o, i2) }).and_then(|(o, i2)| {
                    same_img(img.buffer(), &orig).map_err(|e| format!("the original image changed: {}", e))?;
                    for o in [o.buffer(), i2.buffer()] { each(&buf, o, |p, q| match k {
                        0 => if q.data[0] == q.data[1] && q.data[1] == q.data[2] && (q.data[0] == 0.0 || q.data[0] == 1.0) && q.data[3] == 1.0 { Ok(()) } else { Err("not salt or pepper".into()) },
                        1 => if (0..3).any(|k| q.data[k] == 1.0 && (0..4).all(|j| j == k || q.data[j] == p.data[j])) { Ok(()) } else { Err("not rgb noise".into()) },
                        _ => if q.data[3] == p.data[3] { Ok(()) } else { Err("alpha changed".into()) } })?; }
                    Ok(())
                });
                c.case("Image::noise", || format!("kind {} {}", k, img_str(&buf)), r)?;
            }
            // simple accessors and colour maps
            let r = run(|| {
                let mut m = Image::new_from_buffer(buf.clone());
                if (m.width(), m.height(), m.is_empty()) != (w, h, false) || m.data().len() != buf.data().len() { return Err("dimensions or data differ".to_string()); }
                if m.has_transparency() != buf.has_transparency() || m.is_grayscale() != buf.is_grayscale() { return Err("has_transparency or is_grayscale differ from the buffer".into()); }
                for (x, y) in [(0u32, 0u32), (w - 1, h - 1), (a % w, b % h)] {
                    if !same(m.get_pixel(x, y), &at(&buf, x, y)) { return Err(format!("get_pixel({}, {})", x, y)); }
                }
                for (x, y) in [(-1i32, 0i32), (w as i32, 0), (0, h as i32), (a as i32, b as i32), (-5, -7)] {
                    if !same(m.get_pixel_clamped(x, y), &clamped(&buf, x as i64, y as i64)) { return Err(format!("get_pixel_clamped({}, {})", x, y)); }
                    let inside = x >= 0 && y >= 0 && (x as u32) < w && (y as u32) < h;
                    if m.is_in_image(x, y) != inside { return Err(format!("is_in_image({}, {})", x, y)); }
                    match m.get_pixel_optional(x, y) { Some(p) if inside && same(p, &at(&buf, x as u32, y as u32)) => {} None if !inside => {} o => return Err(format!("get_pixel_optional({}, {}) = {:?}", x, y, o)) }
                }
                let g = |p: &Rgb| Rgb { data: [p.data[1], p.data[0] + 1.0, p.data[3], p.data[2]] };
                let ge = |x: u32, y: u32, p: &Rgb| Rgb { data: [p.data[1], x as f32, y as f32, p.data[2]] };
                same_img(m.map_colors(|p| g(p)).buffer(), &buf.map_colors(|p| g(p)))?;
                same_img(m.map_colors_enumerated(|x, y, p| ge(x, y, p)).buffer(), &buf.map_colors_enumerated(|x, y, p| ge(x, y, p)))?;
                same_img(m.try_map_colors::<(), _>(|p| Ok(g(p))).unwrap().buffer(), &buf.map_colors(|p| g(p)))?;
                same_img(m.try_map_colors_enumerated::<(), _>(|x, y, p| Ok(ge(x, y, p))).unwrap().buffer(), &buf.map_colors_enumerated(|x, y, p| ge(x, y, p)))?;
                same_img(m.buffer(), &buf).map_err(|e| format!("a map_ method changed the image: {}", e))?;
                if m.try_map_colors::<u8, _>(|_| Err(7)).err() != Some(7) { return Err("try_map_colors lost the error".into()); }
                if m.try_map_colors_enumerated::<u8, _>(|_, _, _| Err(8)).err() != Some(8) { return Err("try_map_colors_enumerated lost the error".into()); }
                if m.try_mod_colors::<u8, _>(|_| Err(9)) != Err(9) { return Err("try_mod_colors lost the error".into()); }
                if m.try_mod_colors_enumerated::<u8, _>(|_, _, _| Err(5)) != Err(5) { return Err("try_mod_colors_enumerated lost the error".into()); }
                let mut m1 = Image::new_from_buffer(buf.clone()); m1.mod_colors(|p| g(p)); same_img(m1.buffer(), &buf.map_colors(|p| g(p)))?;
                let mut m1 = Image::new_from_buffer(buf.clone()); m1.mod_colors_enumerated(|x, y, p| ge(x, y, p)); same_img(m1.buffer(), &buf.map_colors_enumerated(|x, y, p| ge(x, y, p)))?;
                let mut m1 = Image::new_from_buffer(buf.clone()); m1.try_mod_colors::<(), _>(|p| Ok(g(p))).unwrap(); same_img(m1.buffer(), &buf.map_colors(|p| g(p)))?;
                let mut m1 = Image::new_from_buffer(buf.clone()); m1.try_mod_colors_enumerated::<(), _>(|x, y, p| Ok(ge(x, y, p))).unwrap(); same_img(m1.buffer(), &buf.map_colors_enumerated(|x, y, p| ge(x, y, p)))?;
                let (px, py) = (a % w, b % h);
                m.put_pixel(px, py, Rgb::RED);
                let mut b2 = buf.clone(); b2.put_pixel(px, py, Rgb::RED);
                same_img(m.buffer(), &b2)?;
                m.data_mut()[0] = Rgb::BLUE; b2.data_mut()[0] = Rgb::BLUE;
                same_img(m.buffer(), &b2)?;
                m.buffer_mut().put_pixel(px, py, Rgb::CYAN); b2.put_pixel(px, py, Rgb::CYAN);
                same_img(m.buffer(), &b2)?;
                same_img(Image::new(w, h).buffer(), &PixelBuffer::new(w, h))?;
                same_img(Image::new_with_color(w, h, Rgb::RED).buffer(), &PixelBuffer::new_with_color(w, h, Rgb::RED))?;
                same_img(Image::new_from_raw(w, h, buf.data().to_vec()).buffer(), &buf)?;
                same_img(Image::new_from_raw_with_meta(&m, w, h, buf.data().to_vec()).buffer(), &buf)?;
                same_img(Image::new_from_buffer_with_meta(&m, buf.clone()).buffer(), &buf)?;
                Ok(())
            }).and_then(|r| r);
            c.case("Image accessors", || img_str(&buf), r)?;
        }
    }
    // files and buffers
    let dir = c.scratch.join("c24");
    let _ = std::fs::create_dir_all(&dir);
    for _ in 0..(if c.thorough { 100 } else { 15 }) {
        let (w, h) = (c.rng.range(1, 20) as u32, c.rng.range(1, 20) as u32);
        let buf = c.image01(w, h);
        let img = Image::new_from_buffer(buf.clone());
        let fmt = || d10::EncodingFormat::Png { color_type: d10::PngColorType::Rgba16, compression: d10::PngCompression::Fast, filter: d10::PngFilterType::NoFilter };
        let p = dir.join("a.png");
        let r = run(|| -> Result<(), String> {
            let e = |x: d10::EncodingError| x.to_string();
            let d = |x: d10::DecodingError| x.to_string();
            let mut want = Vec::new();
            d10_codecs::encode(&mut want, &buf, fmt()).map_err(e)?;
            if img.save_to_buffer(fmt()).map_err(e)? != want { return Err("save_to_buffer differs from encoding the buffer".into()); }
            let mut v = Vec::new();
            img.save_to_writer(&mut v, fmt()).map_err(e)?;
            if v != want { return Err("save_to_writer differs".into()); }
            img.save_with_format(&p, fmt()).map_err(e)?;
            if std::fs::read(&p).ok().as_ref() != Some(&want) { return Err("save_with_format differs".into()); }
            let dd = d10_codecs::decode_buffer(&want).map_err(d)?.buffer;
            same_img(Image::open(&p).map_err(d)?.buffer(), &dd)?;
            same_img(Image::read_from_buffer(&want).map_err(d)?.buffer(), &dd)?;
            img.save(&p).map_err(e)?;
            let mut want = Vec::new();
            d10_codecs::encode(&mut want, &buf, d10::EncodingFormat::png_default()).map_err(e)?;
            if std::fs::read(&p).ok().as_ref() != Some(&want) { return Err("save differs from the default encoder of the name".into()); }
            Ok(())
        }).and_then(|r| r);
        c.case("Image open/save", || img_str(&buf), r)?;
    }
    // percentages
    let pcts = [100.0f32, 50.0, 200.0, 33.3, 33.333_332, 66.6, 1.0, 0.5, 0.0, 10.0, 12.5, 25.0, 75.0, 99.9, 149.99, 150.0, 1000.0, 0.001, 49.0, 51.0];
    for i in 0..(if c.thorough { 4000 } else { 500 }) {
        let (w, h) = (c.rng.range(1, 60) as u32, c.rng.range(1, 60) as u32);
        let p = if i % 2 == 0 { *c.rng.pick(&pcts) } else { c.rng.f01() * 250.0 };
        let img = Image::new_with_color(w, h, Rgb::RED);
        let r = run(|| img.resize_pct(p, FilterMode::Nearest)).and_then(|o| {
            for (n, m, s) in [(o.width(), w, "width"), (o.height(), h, "height")] {
                let t = m as f64 * p as f64 / 100.0;
                let ok = n >= 1 && ((n as f64 - t).abs() <= 0.5 + 1e-4 * (1.0 + t) || (n == 1 && t < 1.0));
                if !ok { return Err(format!("{} {} scaled to {} % is {}", s, m, p, n)); }
            }
            wf(o.buffer())
        });
        c.case("Image::resize_pct", || format!("{}x{} at {} %", w, h, p), r)?;
    }
    let r = run(|| { let (w, h) = (20u32, 10u32); let b = c.image01(w, h); let i = Image::new_from_buffer(b.clone()); same_img(i.resize_pct(50.0, FilterMode::Bilinear).buffer(), &ops::resize(&b, 10, 5, FilterMode::Bilinear)) }).and_then(|r| r);
    c.case("Image::resize_pct", || "20x10 at 50 % bilinear".into(), r)?;
    Ok(())
}
