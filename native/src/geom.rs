//! C01..C09: pixel buffers and geometry.
use crate::ctx::*;
use d10_core::color::*;
use d10_core::kernel::Kernel;
use d10_core::kernel_dyn::KernelDyn;
use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer, MAX_BUFFER_SIZE};
use d10_ops as ops;
use std::cell::RefCell;

fn sz(w: u32, h: u32) -> String {
    format!("width={} height={}", w, h)
}

pub fn c01(c: &mut Ctx) -> Res {
    let max = (i32::MAX as u64) / 2;
    c.case("MAX_BUFFER_SIZE", || "-".into(), if MAX_BUFFER_SIZE == max { Ok(()) } else { Err(format!("MAX_BUFFER_SIZE is {}", MAX_BUFFER_SIZE)) })?;
    // the size predicate, on edges and literals
    let mut dims: Vec<u32> = vec![0, 1, 2, 3, 100, 255, 256, 32766, 32767, 32768, 32769, 46340, 46341, 65535, 65536, 65537, 1 << 20, (1 << 30) - 1, 1 << 30, 1073741822, 1073741823, 1073741824, 2147483647, 2147483648, u32::MAX - 1, u32::MAX];
    for i in c.ints.clone() {
        for d in -1..=1 {
            if i + d >= 0 && i + d <= u32::MAX as i64 { dims.push((i + d) as u32) }
        }
    }
    for _ in 0..60 { let s = c.rng.below(32); let v = c.rng.next() as u32 >> s; dims.push(v); }
    for &w in &dims.clone() {
        for k in [0u64, 1, 2, 3, 7] {
            if w > 0 { let h = (max / w as u64 + k).saturating_sub(2); if h <= u32::MAX as u64 { dims.push(h as u32) } }
        }
    }
    dims.sort(); dims.dedup();
    for &w in &dims {
        for &h in &dims {
            let n = w as u64 * h as u64;
            let want = if w == 0 || h == 0 { w == 0 && h == 0 } else { n <= max };
            let got = run(|| is_valid_buffer_size(w, h));
            let r = match got { Ok(g) if g == want => Ok(()), o => Err(format!("is_valid_buffer_size gives {:?}, expected {}", o, want)) };
            c.case("is_valid_buffer_size", || sz(w, h), r)?;
            if !want {
                // every constructor must refuse
                let col = Rgb::RED;
                let a = run(|| { PixelBuffer::<Rgb>::new_with_color(w, h, col); });
                c.case("new_with_color/refuse", || sz(w, h), if a.is_err() { Ok(()) } else { Err("was not refused".into()) })?;
                let a = run(|| { PixelBuffer::<Rgb>::new(w, h); });
                c.case("new/refuse", || sz(w, h), if a.is_err() { Ok(()) } else { Err("was not refused".into()) })?;
                let a = run(|| { PixelBuffer::<Rgb>::new_from_raw(w, h, vec![]); });
                c.case("new_from_raw/refuse", || sz(w, h), if a.is_err() { Ok(()) } else { Err("was not refused".into()) })?;
                let calls = RefCell::new(0u64);
                let f = |_: u32, _: u32| { *calls.borrow_mut() += 1; if *calls.borrow() > 1000 { std::panic::panic_any(1u8) } Rgb::RED };
                let a = run(|| { PixelBuffer::<Rgb>::new_from_func(w, h, f); });
                let n = *calls.borrow();
                c.case("new_from_func/refuse", || sz(w, h), if a.is_err() && n == 0 { Ok(()) } else { Err(format!("was not refused before filling ({} calls)", n)) })?;
                let a = run(|| PixelBuffer::<Rgb>::try_new_from_func(w, h, |_, _| Err::<Rgb, i32>(1)).is_err());
                c.case("try_new_from_func/refuse", || sz(w, h), if a.is_err() { Ok(()) } else { Err("was not refused".into()) })?;
            }
        }
    }
    for (w, h) in c.sizes(true, 200_000) {
        let col = c.color01();
        let r = run(|| PixelBuffer::<Rgb>::new(w, h)).and_then(|b| expect(&b, w, h, |_, _| Rgb::NONE));
        c.case("new", || sz(w, h), r)?;
        let r = run(|| PixelBuffer::<Hsl>::new(w, h)).and_then(|b| expect(&b, w, h, |_, _| Hsl::default()));
        c.case("new<Hsl>", || sz(w, h), r)?;
        let r = run(|| PixelBuffer::new_with_color(w, h, col)).and_then(|b| expect(&b, w, h, |_, _| col));
        c.case("new_with_color", || format!("{} color={:?}", sz(w, h), col.data), r)?;
        let img = c.unique_image(w, h);
        let d = img.data().to_vec();
        let dd = d.clone();
        let r = run(|| PixelBuffer::new_from_raw(w, h, dd)).and_then(|b| expect(&b, w, h, |x, y| d[(x as usize) + y as usize * w as usize]));
        c.case("new_from_raw", || sz(w, h), r)?;
        // wrong raw lengths
        let n = w as usize * h as usize;
        for l in [0, 1, n.saturating_sub(1), n + 1, n + 2, n * 2, n + w as usize, n.saturating_sub(w as usize)] {
            if l != n && l < 400_000 {
                let r = run(|| { PixelBuffer::new_from_raw(w, h, vec![col; l]); });
                c.case("new_from_raw/length", || format!("{} len={}", sz(w, h), l), if r.is_err() { Ok(()) } else { Err("wrong raw length accepted".into()) })?;
            }
        }
        let calls = RefCell::new(vec![]);
        let f = |x: u32, y: u32| { calls.borrow_mut().push((x, y)); Rgb { data: [x as f32, y as f32, 7.5, 0.5] } };
        let r = run(|| PixelBuffer::new_from_func(w, h, f)).and_then(|b| expect(&b, w, h, |x, y| Rgb { data: [x as f32, y as f32, 7.5, 0.5] }));
        let r = r.and_then(|_| order(&calls.borrow(), w, h, n));
        c.case("new_from_func", || sz(w, h), r)?;
        calls.borrow_mut().clear();
        let r = run(|| PixelBuffer::try_new_from_func(w, h, |x, y| Ok::<Rgb, u32>(f(x, y))).map_err(|e| format!("unexpected error {}", e))).and_then(|b| b).and_then(|b| expect(&b, w, h, |x, y| Rgb { data: [x as f32, y as f32, 7.5, 0.5] }));
        let r = r.and_then(|_| order(&calls.borrow(), w, h, n));
        c.case("try_new_from_func", || sz(w, h), r)?;
        if n > 0 {
            let mut idx = vec![0, n - 1, c.rng.below(n as u64) as usize];
            if n > 2 { idx.push(n - 2); idx.push(1) }
            for k in idx {
                let count = RefCell::new(0usize);
                let r = run(|| PixelBuffer::try_new_from_func(w, h, |x, y| { *count.borrow_mut() += 1; if x as usize + y as usize * w as usize >= k { Err((x, y)) } else { Ok(Rgb::RED) } }));
                let want = ((k as u32) % w, (k as u32) / w);
                let r = match r { Err(e) => Err(e), Ok(Ok(_)) => Err("error ignored".into()), Ok(Err(e)) if e == want && *count.borrow() == k + 1 => Ok(()), Ok(Err(e)) => Err(format!("error {:?} after {} calls, expected {:?} after {}", e, count.borrow(), want, k + 1)) };
                c.case("try_new_from_func/error", || format!("{} fails from pixel index {}", sz(w, h), k), r)?;
            }
        }
    }
    Ok(())
}

fn order(calls: &[(u32, u32)], w: u32, h: u32, n: usize) -> Result<(), String> {
    if calls.len() != n { return Err(format!("function called {} times for {}x{}", calls.len(), w, h)); }
    for (i, c) in calls.iter().enumerate() {
        if *c != ((i % w as usize) as u32, (i / w as usize) as u32) { return Err(format!("call {} was for {:?}, expected row-major order", i, c)); }
    }
    Ok(())
}

pub fn c02(c: &mut Ctx) -> Res {
    for (w, h) in c.sizes(true, 70_000) {
        let img = c.unique_image(w, h);
        let n = w as usize * h as usize;
        // enumerate
        let r = run(|| {
            let e: Vec<_> = img.enumerate().collect();
            if e.len() != n { return Err(format!("enumerate yields {} items", e.len())); }
            for (i, (x, y, p)) in e.iter().enumerate() {
                if (*x as usize, *y as usize) != (i % w as usize, i / w as usize) || !same(p, &img.data()[i]) { return Err(format!("item {} is ({}, {}, {:?})", i, x, y, p)); }
            }
            let mut m = img.clone();
            let mut k = 0usize;
            for (x, y, p) in m.enumerate_mut() {
                if (x as usize, y as usize) != (k % w as usize, k / w as usize) || !same(p, &img.data()[k]) { return Err(format!("enumerate_mut item {} is ({}, {}, {:?})", k, x, y, p)); }
                p.data[0] = -5.0 - k as f32;
                k += 1;
            }
            if k != n { return Err(format!("enumerate_mut yields {} items", k)); }
            for i in 0..n { if m.data()[i].data[0] != -5.0 - i as f32 { return Err(format!("write through enumerate_mut to {} lost", i)); } }
            Ok(())
        });
        c.case("enumerate", || sz(w, h), r.and_then(|r| r))?;
        // coordinates
        let mut xs: Vec<i64> = vec![0, 1, w as i64 - 1, w as i64, w as i64 + 1, -1, -2, i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 - 1, 65535, 65536, -65536];
        let mut ys: Vec<i64> = vec![0, 1, h as i64 - 1, h as i64, h as i64 + 1, -1, -2, i32::MAX as i64, i32::MIN as i64, i32::MIN as i64 + 1, 65536];
        for i in c.ints.clone() { for d in -1..=1 { xs.push(i + d); ys.push(i + d); xs.push(-i + d); ys.push(-i + d); } }
        for _ in 0..6 { xs.push(c.rng.range(-3, w as i64 + 2)); ys.push(c.rng.range(-3, h as i64 + 2)); }
        if w > 3 { xs.push(w as i64 / 2) }
        if h > 3 { ys.push(h as i64 / 2) }
        xs.sort(); xs.dedup(); ys.sort(); ys.dedup();
        let big = n > 20_000;
        for &x in &xs {
            for &y in &ys {
                if x < i32::MIN as i64 || x > i32::MAX as i64 || y < i32::MIN as i64 || y > i32::MAX as i64 { continue; }
                let inside = x >= 0 && y >= 0 && x < w as i64 && y < h as i64;
                let cs = || format!("{} x={} y={}", sz(w, h), x, y);
                let g = run(|| img.is_in_image(x as i32, y as i32));
                c.case("is_in_image", cs, match g { Ok(b) if b == inside => Ok(()), o => Err(format!("gives {:?}, expected {}", o, inside)) })?;
                let g = run(|| img.get_pixel_optional(x as i32, y as i32).cloned());
                let r = match g { Ok(Some(p)) if inside && same(&p, &at(&img, x as u32, y as u32)) => Ok(()), Ok(None) if !inside => Ok(()), o => Err(format!("gives {:?} (inside={})", o, inside)) };
                c.case("get_pixel_optional", cs, r)?;
                if n > 0 {
                    let want = clamped(&img, x, y);
                    let g = run(|| *img.get_pixel_clamped(x as i32, y as i32));
                    c.case("get_pixel_clamped", cs, match g { Ok(p) if same(&p, &want) => Ok(()), o => Err(format!("gives {:?}, expected {:?}", o, want)) })?;
                }
                if x >= 0 && y >= 0 {
                    let g = run(|| *img.get_pixel(x as u32, y as u32));
                    let r = match g { Ok(p) if inside && same(&p, &at(&img, x as u32, y as u32)) => Ok(()), Err(_) if !inside => Ok(()), o => Err(format!("gives {:?} (inside={})", o, inside)) };
                    c.case("get_pixel", cs, r)?;
                    if big && !inside && c.evals % 7 != 0 { continue; }
                    let mut m = img.clone();
                    let g = run(|| { m.put_pixel(x as u32, y as u32, Rgb { data: [-77.0, 1.0, 2.0, 3.0] }); });
                    let r = match g {
                        Ok(()) if inside => {
                            let k = x as usize + y as usize * w as usize;
                            let mut e = Ok(());
                            if m.width() != w || m.height() != h || m.data().len() != n { e = Err("shape changed".to_string()) } else {
                                for i in 0..n {
                                    let want = if i == k { Rgb { data: [-77.0, 1.0, 2.0, 3.0] } } else { img.data()[i] };
                                    if !same(&m.data()[i], &want) { e = Err(format!("pixel index {} is {:?}, expected {:?}", i, m.data()[i], want)); break; }
                                }
                            }
                            e
                        }
                        Err(_) if !inside => Ok(()),
                        o => Err(format!("gives {:?} (inside={})", o, inside)),
                    };
                    c.case("put_pixel", cs, r)?;
                }
            }
        }
        for (x, y) in [(u32::MAX, 0), (0, u32::MAX), (1 << 31, 0), (0, 1 << 31), (u32::MAX, u32::MAX), ((1u64 << 32).saturating_sub(w as u64) as u32, 1)] {
            if (x as u64) < w as u64 && (y as u64) < h as u64 { continue; }
            let g = run(|| *img.get_pixel(x, y));
            c.case("get_pixel", || format!("{} x={} y={}", sz(w, h), x, y), match g { Err(_) => Ok(()), o => Err(format!("gives {:?}", o)) })?;
            let mut m = img.clone();
            let g = run(|| { m.put_pixel(x, y, Rgb::RED); });
            c.case("put_pixel", || format!("{} x={} y={}", sz(w, h), x, y), match g { Err(_) => Ok(()), _ => Err("accepted".into()) })?;
        }
    }
    Ok(())
}

pub fn c03(c: &mut Ctx) -> Res {
    for (w, h) in c.sizes(true, 70_000) {
        let mut img = c.unique_image(w, h);
        if c.rng.chance(50) && w * h < 3000 { img = c.image01(w, h); }
        let n = w as usize * h as usize;
        // stateful function: result depends on call number and pixel
        let spec = |i: usize| { let p = img.data()[i]; Rgb { data: [p.data[0] + 1.0, i as f32, p.data[2], p.data[3]] } };
        let specxy = |i: usize| { let p = img.data()[i]; Rgb { data: [p.data[0], (i % w as usize) as f32, (i / w as usize) as f32, p.data[3]] } };
        let idx = |x: u32, y: u32| x as usize + y as usize * w as usize;
        let mut k = 0usize;
        let r = run(|| img.map_colors(|p| { let r = Rgb { data: [p.data[0] + 1.0, k as f32, p.data[2], p.data[3]] }; k += 1; r })).and_then(|b| expect(&b, w, h, |x, y| spec(idx(x, y))));
        c.case("map_colors", || sz(w, h), r)?;
        let mut k = 0usize;
        let r = run(|| img.try_map_colors(|p| { let r = Rgb { data: [p.data[0] + 1.0, k as f32, p.data[2], p.data[3]] }; k += 1; Ok::<_, ()>(r) })).and_then(|b| b.map_err(|_| "error".into())).and_then(|b| expect(&b, w, h, |x, y| spec(idx(x, y))));
        c.case("try_map_colors", || sz(w, h), r)?;
        let mut k = 0usize;
        let mut m = img.clone();
        let r = run(|| m.mod_colors(|p| { let r = Rgb { data: [p.data[0] + 1.0, k as f32, p.data[2], p.data[3]] }; k += 1; r })).and_then(|_| expect(&m, w, h, |x, y| spec(idx(x, y))));
        c.case("mod_colors", || sz(w, h), r)?;
        let mut k = 0usize;
        let mut m = img.clone();
        let r = run(|| m.try_mod_colors(|p| { let r = Rgb { data: [p.data[0] + 1.0, k as f32, p.data[2], p.data[3]] }; k += 1; Ok::<_, ()>(r) })).and_then(|b| b.map_err(|_| "error".into())).and_then(|_| expect(&m, w, h, |x, y| spec(idx(x, y))));
        c.case("try_mod_colors", || sz(w, h), r)?;
        let fe = |x: u32, y: u32, p: &Rgb| Rgb { data: [p.data[0], x as f32, y as f32, p.data[3]] };
        let r = run(|| img.map_colors_enumerated(fe)).and_then(|b| expect(&b, w, h, |x, y| specxy(idx(x, y))));
        c.case("map_colors_enumerated", || sz(w, h), r)?;
        let r = run(|| img.try_map_colors_enumerated(|x, y, p| Ok::<_, ()>(fe(x, y, p)))).and_then(|b| b.map_err(|_| "error".into())).and_then(|b| expect(&b, w, h, |x, y| specxy(idx(x, y))));
        c.case("try_map_colors_enumerated", || sz(w, h), r)?;
        let mut m = img.clone();
        let r = run(|| m.mod_colors_enumerated(fe)).and_then(|_| expect(&m, w, h, |x, y| specxy(idx(x, y))));
        c.case("mod_colors_enumerated", || sz(w, h), r)?;
        let mut m = img.clone();
        let r = run(|| m.try_mod_colors_enumerated(|x, y, p| Ok::<_, ()>(fe(x, y, p)))).and_then(|b| b.map_err(|_| "error".into())).and_then(|_| expect(&m, w, h, |x, y| specxy(idx(x, y))));
        c.case("try_mod_colors_enumerated", || sz(w, h), r)?;
        // enumerated forms call in order
        let log = RefCell::new(vec![]);
        let r = run(|| img.map_colors_enumerated(|x, y, p| { log.borrow_mut().push((x, y)); *p })).map(|_| ()).and_then(|_| order(&log.borrow(), w, h, n));
        c.case("map_colors_enumerated/order", || sz(w, h), r)?;
        log.borrow_mut().clear();
        let mut m = img.clone();
        let r = run(|| m.mod_colors_enumerated(|x, y, p| { log.borrow_mut().push((x, y)); *p })).and_then(|_| order(&log.borrow(), w, h, n));
        c.case("mod_colors_enumerated/order", || sz(w, h), r)?;
        if n > 0 {
            let mut ks = vec![0, n - 1, c.rng.below(n as u64) as usize];
            if n > 2 { ks.push(1); ks.push(n - 2); }
            for kf in ks {
                let cs = || format!("{} error at pixel index {}", sz(w, h), kf);
                let cnt = RefCell::new(0usize);
                let f = |p: &Rgb| { let i = *cnt.borrow(); *cnt.borrow_mut() += 1; if i == kf { Err(i) } else { Ok(Rgb { data: [p.data[0] + 1.0, i as f32, p.data[2], p.data[3]] }) } };
                let g = run(|| img.try_map_colors(f).map(|_| ()));
                let calls = *cnt.borrow();
                c.case("try_map_colors/error", cs, if matches!(g, Ok(Err(k)) if k == kf) && calls == kf + 1 { Ok(()) } else { Err(format!("gives {:?} after {} calls", g, calls)) })?;
                *cnt.borrow_mut() = 0;
                let mut m = img.clone();
                let g = run(|| m.try_mod_colors(f));
                let calls = *cnt.borrow();
                let r = if matches!(g, Ok(Err(k)) if k == kf) && calls == kf + 1 { expect(&m, w, h, |x, y| { let i = idx(x, y); if i < kf { spec(i) } else { img.data()[i] } }) } else { Err(format!("gives {:?} after {} calls", g, calls)) };
                c.case("try_mod_colors/error", cs, r)?;
                *cnt.borrow_mut() = 0;
                let fx = |x: u32, y: u32, p: &Rgb| { *cnt.borrow_mut() += 1; let i = idx(x, y); if i == kf { Err(i) } else { Ok(fe(x, y, p)) } };
                let g = run(|| img.try_map_colors_enumerated(fx).map(|_| ()));
                let calls = *cnt.borrow();
                c.case("try_map_colors_enumerated/error", cs, if matches!(g, Ok(Err(k)) if k == kf) && calls == kf + 1 { Ok(()) } else { Err(format!("gives {:?} after {} calls", g, calls)) })?;
                *cnt.borrow_mut() = 0;
                let mut m = img.clone();
                let g = run(|| m.try_mod_colors_enumerated(fx));
                let calls = *cnt.borrow();
                let r = if matches!(g, Ok(Err(k)) if k == kf) && calls == kf + 1 { expect(&m, w, h, |x, y| { let i = idx(x, y); if i < kf { specxy(i) } else { img.data()[i] } }) } else { Err(format!("gives {:?} after {} calls", g, calls)) };
                c.case("try_mod_colors_enumerated/error", cs, r)?;
            }
        }
    }
    // whole-buffer conversions = per-pixel conversions, from several source spaces
    for (w, h) in c.sizes(true, 2500) {
        let img = c.image01(w, h);
        macro_rules! conv { ($src:expr, $name:expr) => {{
            let s = $src;
            macro_rules! one { ($m:ident, $it:ident) => {{
                let r = run(|| s.$m()).and_then(|b| expect(&b, w, h, |x, y| at(&s, x, y).$m()));
                c.case(concat!("PixelBuffer::", stringify!($m)), || format!("from {} {} {}", $name, sz(w, h), img_str(&img)), r)?;
                let r = run(|| { let v: Vec<_> = s.data().iter().$it().collect(); v }).and_then(|v| if v.len() == s.data().len() && v.iter().zip(s.data()).all(|(a, b)| same(a, &b.$m())) { Ok(()) } else { Err("iterator conversion differs from per-pixel conversion".to_string()) });
                c.case(concat!("ColorIterRef::", stringify!($it)), || format!("from {} {} {}", $name, sz(w, h), img_str(&img)), r)?;
                let r = run(|| { let v: Vec<_> = ColorIter::$it(s.data().to_vec().into_iter()).collect(); v }).and_then(|v| if v.len() == s.data().len() && v.iter().zip(s.data()).all(|(a, b)| same(a, &b.$m())) { Ok(()) } else { Err("iterator conversion differs from per-pixel conversion".to_string()) });
                c.case(concat!("ColorIter::", stringify!($it)), || format!("from {} {} {}", $name, sz(w, h), img_str(&img)), r)?;
            }}}
            one!(to_rgb, into_rgb); one!(to_srgb, into_srgb); one!(to_hsl, into_hsl); one!(to_hsv, into_hsv); one!(to_yuv, into_yuv); one!(to_xyz, into_xyz);
            let r = run(|| s.to_lab::<illuminant::D50, observer::O10>()).and_then(|b| expect(&b, w, h, |x, y| at(&s, x, y).to_lab::<illuminant::D50, observer::O10>()));
            c.case("PixelBuffer::to_lab", || format!("from {} {}", $name, img_str(&img)), r)?;
            let r = run(|| s.to_lch::<illuminant::D65, observer::O2>()).and_then(|b| expect(&b, w, h, |x, y| at(&s, x, y).to_lch::<illuminant::D65, observer::O2>()));
            c.case("PixelBuffer::to_lch", || format!("from {} {}", $name, img_str(&img)), r)?;
            let r = run(|| { let v: Vec<Lab<illuminant::D50, observer::O10>> = s.data().iter().into_lab().collect(); let u: Vec<Lch<illuminant::D50, observer::O10>> = s.data().iter().into_lch().collect(); (v, u) }).and_then(|(v, u)| if v.len() == s.data().len() && u.len() == v.len() && v.iter().zip(s.data()).all(|(a, b)| same(a, &b.to_lab::<illuminant::D50, observer::O10>())) && u.iter().zip(s.data()).all(|(a, b)| same(a, &b.to_lch::<illuminant::D50, observer::O10>())) { Ok(()) } else { Err("iterator conversion differs from per-pixel conversion".to_string()) });
            c.case("ColorIterRef::into_lab/into_lch", || format!("from {} {}", $name, img_str(&img)), r)?;
        }}}
        conv!(img.clone(), "rgb");
        if w * h < 400 {
            conv!(img.map_colors(|p| p.to_hsl()), "hsl");
            conv!(img.map_colors(|p| p.to_srgb()), "srgb");
            conv!(img.map_colors(|p| p.to_yuv()), "yuv");
        }
    }
    Ok(())
}

pub fn c04(c: &mut Ctx) -> Res {
    for (w, h) in c.sizes(true, 100_000) {
        for kind in 0..2 {
            if kind == 1 && w * h > 5000 { continue; }
            let img = if kind == 0 { c.unique_image(w, h) } else { c.image01(w, h) };
            let s = || img_str(&img);
            let r = run(|| ops::flip_horizontal(&img)).and_then(|b| expect(&b, w, h, |x, y| at(&img, w - 1 - x, y)));
            c.case("flip_horizontal", s, r)?;
            let r = run(|| ops::flip_vertical(&img)).and_then(|b| expect(&b, w, h, |x, y| at(&img, x, h - 1 - y)));
            c.case("flip_vertical", s, r)?;
            let r = run(|| ops::rotate90(&img)).and_then(|b| expect(&b, h, w, |x, y| at(&img, y, h - 1 - x)));
            c.case("rotate90", s, r)?;
            let r = run(|| ops::rotate180(&img)).and_then(|b| expect(&b, w, h, |x, y| at(&img, w - 1 - x, h - 1 - y)));
            c.case("rotate180", s, r)?;
            let r = run(|| ops::rotate270(&img)).and_then(|b| expect(&b, h, w, |x, y| at(&img, w - 1 - y, x)));
            c.case("rotate270", s, r)?;
        }
    }
    Ok(())
}

pub fn c05(c: &mut Ctx) -> Res {
    for (w, h) in c.sizes(true, 20_000) {
        let img = c.unique_image(w, h);
        let mut vx: Vec<u32> = vec![0, 1, 2, w / 2, w.saturating_sub(1), w, w + 1, u32::MAX, u32::MAX - 1, u32::MAX - w, (u32::MAX - w).saturating_add(1), 1 << 31, 65536];
        let mut vy: Vec<u32> = vec![0, 1, 2, h / 2, h.saturating_sub(1), h, h + 1, u32::MAX, u32::MAX - h, (u32::MAX - h).saturating_add(1), 1 << 31];
        for i in c.ints.clone() { if i >= 0 && i < u32::MAX as i64 { for v in [&mut vx, &mut vy] { v.push(i as u32); v.push(i as u32 + 1); v.push((i as u32).saturating_sub(1)) } } }
        let combos = if w * h < 200 { 400 } else { 40 };
        for _ in 0..combos {
            let (ox, oy, cw, ch) = (*c.rng.pick(&vx), *c.rng.pick(&vy), *c.rng.pick(&vx), *c.rng.pick(&vy));
            let (ox, oy, cw, ch) = if c.rng.chance(50) { (c.rng.below(w as u64 + 2) as u32, c.rng.below(h as u64 + 2) as u32, c.rng.below(w as u64 + 3) as u32, c.rng.below(h as u64 + 3) as u32) } else { (ox, oy, cw, ch) };
            let ew = (cw as u64).min((w as u64).saturating_sub(ox as u64)) as u32;
            let eh = (ch as u64).min((h as u64).saturating_sub(oy as u64)) as u32;
            let (ew, eh) = if ew == 0 || eh == 0 { (0, 0) } else { (ew, eh) };
            let r = run(|| ops::crop(&img, ox, oy, cw, ch)).and_then(|b| expect(&b, ew, eh, |x, y| at(&img, ox + x, oy + y)));
            c.case("crop", || format!("{} offset=({}, {}) size=({}, {})", img_str(&img), ox, oy, cw, ch), r)?;
        }
    }
    Ok(())
}

fn kernel_checks<const N: usize>(c: &mut Ctx, img: &PixelBuffer<Rgb>, pos: &[(i32, i32)]) -> Res {
    let off = (N / 2) as i64;
    for &(x, y) in pos {
        let chk = |get: &dyn Fn(usize, usize) -> Rgb| -> Result<(), String> {
            for j in 0..N { for i in 0..N {
                let want = clamped(img, x as i64 + i as i64 - off, y as i64 + j as i64 - off);
                let g = get(j, i);
                if !same(&g, &want) { return Err(format!("window cell ({}, {}) is {:?}, expected {:?}", i, j, g, want)); }
            } }
            Ok(())
        };
        let r = run(|| img.get_kernel::<N>(x, y)).and_then(|k| chk(&|j, i| k[j][i]));
        c.case(&format!("get_kernel<{}>", N), || format!("x={} y={} {}", x, y, img_str(img)), r)?;
        let r = run(|| img.get_kernel_dyn(x, y, N)).and_then(|k| { if k.len() != N || k.iter().any(|r| r.len() != N) { return Err("wrong window size".to_string()); } chk(&|j, i| k[j][i]) });
        c.case("get_kernel_dyn", || format!("size={} x={} y={} {}", N, x, y, img_str(img)), r)?;
    }
    Ok(())
}

fn conv_checks<const N: usize>(c: &mut Ctx, w: u32, h: u32) -> Res {
    let img = c.image01(w, h);
    let mut k = [[0f32; N]; N];
    let wild = c.rng.chance(30);
    for r in k.iter_mut() { for v in r.iter_mut() { *v = if wild { c.rng.f01() * 20.0 - 10.0 } else { c.rng.f01() * 2.0 - 0.7 } } }
    let off = (N / 2) as i64;
    let chk = |b: &PixelBuffer<Rgb>| -> Result<(), String> {
        wf(b)?;
        if (b.width(), b.height()) != (w, h) { return Err(format!("dimensions {}x{}", b.width(), b.height())); }
        for y in 0..h { for x in 0..w { for ch in 0..4 {
            let (mut s, mut m) = (0f64, 0f64);
            for j in 0..N { for i in 0..N {
                let v = clamped(&img, x as i64 + i as i64 - off, y as i64 + j as i64 - off).data[ch] as f64 * k[j][i] as f64;
                s += v; m += v.abs();
            } }
            let g = at(b, x, y).data[ch] as f64;
            if !((g - s).abs() <= 1e-5 * m + 1e-6) { return Err(format!("pixel ({}, {}) channel {} is {}, expected {}", x, y, ch, g, s)); }
        } } }
        Ok(())
    };
    let r = run(|| img.apply_kernel(&Kernel::<N>::new(k))).and_then(|b| chk(&b));
    c.case(&format!("apply_kernel<{}>", N), || format!("kernel={:?} {}", k, img_str(&img)), r)?;
    let flat: Vec<f32> = k.iter().flat_map(|r| r.iter().cloned()).collect();
    let r = run(|| img.apply_kernel_dyn(&KernelDyn::new(flat.clone(), N as u32, N as u32))).and_then(|b| chk(&b));
    c.case("apply_kernel_dyn", || format!("kernel={:?} {}", k, img_str(&img)), r)?;
    Ok(())
}

pub fn c06(c: &mut Ctx) -> Res {
    for (w, h) in c.sizes(false, 4000) {
        let img = c.unique_image(w, h);
        let mut pos = vec![(0, 0), (w as i32 - 1, h as i32 - 1), (w as i32 / 2, h as i32 / 2), (-1, -1), (w as i32, h as i32), (-5, 2), (2, -5), (1 << 30, 0), (0, 1 << 30), (-(1 << 30), -(1 << 30)), (1, 1), (2, 2), (3, 3), (w as i32 - 2, h as i32 - 2), (w as i32 - 3, h as i32 - 3), (w as i32 - 4, 0), (0, h as i32 - 4), (w as i32 - 2, 2), (2, h as i32 - 2), (3, h as i32 - 1), (w as i32 - 1, 3)];
        for _ in 0..(if w * h < 400 { 40 } else { 8 }) { pos.push((c.rng.range(-4, w as i64 + 3) as i32, c.rng.range(-4, h as i64 + 3) as i32)); }
        for i in c.ints.clone() { if i < 5000 { pos.push((i as i32, 1)); pos.push((1, i as i32)); pos.push((i as i32 - 1, i as i32 - 1)); } }
        if w < 24 && h < 24 { for x in 0..w as i32 { for y in 0..h as i32 { pos.push((x, y)) } } }
        kernel_checks::<1>(c, &img, &pos)?;
        kernel_checks::<3>(c, &img, &pos)?;
        kernel_checks::<5>(c, &img, &pos)?;
        kernel_checks::<7>(c, &img, &pos)?;
        kernel_checks::<9>(c, &img, &pos)?;
        if w * h < 900 { kernel_checks::<11>(c, &img, &pos)?; kernel_checks::<13>(c, &img, &pos)?; kernel_checks::<21>(c, &img, &pos)?; }
    }
    for (w, h) in c.sizes(false, if c.thorough { 2000 } else { 700 }) {
        for _ in 0..2 {
            conv_checks::<1>(c, w, h)?;
            conv_checks::<3>(c, w, h)?;
            conv_checks::<5>(c, w, h)?;
            if w * h < 300 { conv_checks::<7>(c, w, h)?; conv_checks::<9>(c, w, h)?; }
        }
        // rectangular run-time kernels
        let img = c.image01(w, h);
        let (kw, kh) = (1 + 2 * c.rng.below(3) as u32, 1 + 2 * c.rng.below(3) as u32);
        let data: Vec<f32> = (0..kw * kh).map(|_| c.rng.f01() * 2.0 - 1.0).collect();
        let kd = KernelDyn::new(data.clone(), kw, kh);
        let r = run(|| img.apply_kernel_dyn(&kd)).and_then(|b| {
            wf(&b)?;
            for y in 0..h { for x in 0..w { for ch in 0..4 {
                let mut s = 0f64; let mut m = 0f64;
                for j in 0..kh { for i in 0..kw { let v = clamped(&img, x as i64 + i as i64 - (kw / 2) as i64, y as i64 + j as i64 - (kh / 2) as i64).data[ch] as f64 * data[(i + j * kw) as usize] as f64; s += v; m += v.abs(); } }
                if !((at(&b, x, y).data[ch] as f64 - s).abs() <= 1e-5 * m + 1e-6) { return Err(format!("pixel ({}, {}) channel {} is {}, expected {}", x, y, ch, at(&b, x, y).data[ch], s)); }
                if kd.get(x % kw, y % kh) != data[((x % kw) + (y % kh) * kw) as usize] { return Err("KernelDyn::get".to_string()); }
            } } }
            Ok(())
        });
        c.case("apply_kernel_dyn/rect", || format!("kernel {}x{} {:?} {}", kw, kh, data, img_str(&img)), r)?;
    }
    Ok(())
}

fn lay(c: &mut Ctx) -> Vec<PixelBuffer<Rgb>> {
    let n = 1 + c.rng.below(4) as usize;
    (0..n).map(|_| {
        let (w, h) = match c.rng.below(12) { 0 => (0, 0), 1 => (1, c.rng.range(1, 60) as u32), 2 => (c.rng.range(1, 60) as u32, 1), _ => (c.rng.range(1, 12) as u32, c.rng.range(1, 12) as u32) };
        c.unique_image(w, h)
    }).collect()
}

pub fn c07(c: &mut Ctx) -> Res {
    let rounds = if c.thorough { 4000 } else { 600 };
    for round in 0..rounds {
        let mut bufs = lay(c);
        if round % 9 == 0 { let ints = c.ints.clone(); for i in ints { if i > 0 && i < 3000 { bufs.push(c.unique_image(i as u32, 2)); bufs.push(c.unique_image(2, i as u32 + 1)); } } bufs.truncate(4); }
        let def = Rgb { data: [9.0, 8.0, 7.0, 0.125] };
        let refs: Vec<&PixelBuffer<Rgb>> = bufs.iter().collect();
        let w = bufs.iter().map(|b| b.width()).max().unwrap();
        let h = bufs.iter().map(|b| b.height()).max().unwrap();
        let pix = |k: usize, x: u32, y: u32| if x < bufs[k].width() && y < bufs[k].height() { at(&bufs[k], x, y) } else { def };
        let f = |x: u32, y: u32, p: &[Rgb]| { let mut d = [x as f32, y as f32, p.len() as f32, 0.0]; for (i, v) in p.iter().enumerate() { d[3] += v.data[0] * (i as f32 + 1.0) + v.data[2] * 0.5 + v.data[1] * 3.0 + v.data[3] * 7.0 } Rgb { data: d } };
        let spec = |x: u32, y: u32| { let p: Vec<Rgb> = (0..bufs.len()).map(|k| pix(k, x, y)).collect(); f(x, y, &p) };
        let s = || format!("sizes {:?}", bufs.iter().map(|b| (b.width(), b.height())).collect::<Vec<_>>());
        let r = run(|| ops::compose_slice(&refs, def, |x, y, p| f(x, y, p))).and_then(|b| expect(&b, w, h, spec));
        c.case("compose_slice", s, r)?;
        let r = run(|| ops::try_compose_slice(&refs, def, |x, y, p| Ok::<_, ()>(f(x, y, p)))).and_then(|b| b.map_err(|_| "error".to_string())).and_then(|b| expect(&b, w, h, spec));
        c.case("try_compose_slice", s, r)?;
        let n = w as usize * h as usize;
        let kf = if n > 0 { c.rng.below(n as u64) as usize } else { 0 };
        if n > 0 {
            let r = run(|| ops::try_compose_slice(&refs, def, |x, y, p| if x as usize + y as usize * w as usize >= kf { Err((x, y)) } else { Ok(f(x, y, p)) }).map(|_| ()));
            c.case("try_compose_slice/error", || format!("{} error from {}", s(), kf), match r { Ok(Err(e)) if e == (kf as u32 % w, kf as u32 / w) => Ok(()), o => Err(format!("gives {:?}", o)) })?;
        }
        macro_rules! arr { ($n:literal) => { if bufs.len() == $n {
            let a: [&PixelBuffer<Rgb>; $n] = std::array::from_fn(|i| &bufs[i]);
            let r = run(|| ops::compose(a, def, |x, y, p| f(x, y, &p))).and_then(|b| expect(&b, w, h, spec));
            c.case("compose", s, r)?;
            let r = run(|| ops::try_compose(a, def, |x, y, p| Ok::<_, ()>(f(x, y, &p)))).and_then(|b| b.map_err(|_| "error".to_string())).and_then(|b| expect(&b, w, h, spec));
            c.case("try_compose", s, r)?;
            if n > 0 {
                let r = run(|| ops::try_compose(a, def, |x, y, p| if x as usize + y as usize * w as usize >= kf { Err((x, y)) } else { Ok(f(x, y, &p)) }).map(|_| ()));
                c.case("try_compose/error", || format!("{} error from {}", s(), kf), match r { Ok(Err(e)) if e == (kf as u32 % w, kf as u32 / w) => Ok(()), o => Err(format!("gives {:?}", o)) })?;
            }
        } } }
        arr!(1); arr!(2); arr!(3); arr!(4);
        // blend layout
        let (a, b) = { let mk = |c: &mut Ctx| { let (w, h) = (c.rng.range(1, 14) as u32, c.rng.range(1, 14) as u32); if c.rng.chance(5) { c.image01(0, 0) } else { c.image01(w, h) } }; (mk(c), mk(c)) };
        let t = c.rng.f01();
        let (bw, bh) = (a.width().max(b.width()), a.height().max(b.height()));
        for op in blend_ops() {
            let bf = blend_fn(&op);
            let sp = |x: u32, y: u32| { let ia = x < a.width() && y < a.height(); let ib = x < b.width() && y < b.height(); if ia && ib { bf(at(&a, x, y), at(&b, x, y), t) } else if ia { at(&a, x, y) } else if ib { at(&b, x, y) } else { Rgb { data: [0.0; 4] } } };
            let opn = format!("{:?}", op);
            let r = run(|| ops::blend_image(&a, &b, op, t)).and_then(|r| expect(&r, bw, bh, sp));
            c.case("blend_image", || format!("{} intensity={} {} / {}", opn, t, img_str(&a), img_str(&b)), r)?;
        }
    }
    Ok(())
}

pub fn blend_ops() -> Vec<ops::BlendOp> {
    use ops::BlendOp::*;
    vec![Normal, Addition, Subtract, Darken, Lighten, HslDarken, HslLighten, LchDarken, LchLighten, LchHue, LchSaturation, LchColor]
}
pub fn blend_fn(o: &ops::BlendOp) -> fn(Rgb, Rgb, f32) -> Rgb {
    use ops::BlendOp::*;
    match o { Normal => ops::blend_normal, Addition => ops::blend_addition, Subtract => ops::blend_subtract, Darken => ops::blend_darken, Lighten => ops::blend_lighten, HslDarken => ops::blend_hsl_darken, HslLighten => ops::blend_hsl_lighten, LchDarken => ops::blend_lch_darken, LchLighten => ops::blend_lch_lighten, LchHue => ops::blend_lch_hue, LchSaturation => ops::blend_lch_saturation, LchColor => ops::blend_lch_color }
}

pub fn c08(c: &mut Ctx) -> Res {
    for (w, h) in c.sizes(true, 20_000) {
        let img = c.unique_image(w, h);
        let mut offs: Vec<u32> = vec![0, 1, 2, 3, w / 2, w.saturating_sub(1), w, w + 1, 255, 256, 65535, 65536, (1 << 30) - 1, 1 << 30, (1u32 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX - 1, u32::MAX, (1 << 31) - w, u32::MAX - w];
        for i in c.ints.clone() { if i >= 0 && i < u32::MAX as i64 { offs.push(i as u32); offs.push(i as u32 + 1) } }
        for _ in 0..6 { offs.push(c.rng.below(w as u64 + 3) as u32) }
        for o in offs {
            let r = run(|| ops::interlace(&img, o)).and_then(|b| expect(&b, w, h, |x, y| clamped(&img, if y % 2 == 0 { x as i64 - o as i64 } else { x as i64 + o as i64 }, y as i64)));
            c.case("interlace", || format!("offset={} {}", o, img_str(&img)), r)?;
        }
    }
    Ok(())
}

pub fn filters() -> Vec<ops::FilterMode> {
    use ops::FilterMode::*;
    vec![Nearest, Bilinear, Bicubic, Lanczos3, Auto]
}

pub fn c09(c: &mut Ctx) -> Res {
    let mut ss = c.sizes(false, 1500);
    ss.push((400, 2));
    for (w, h) in ss {
        let uniq = c.unique_image(w, h);
        let mut targets = vec![(w, h), (1, 1), (w * 2, h * 2), (w + 1, h), (w, h + 1), ((w / 2).max(1), (h / 2).max(1)), ((w / 7).max(1), (h / 5).max(1)), (h, w), (1, h), (w, 1), (50, 50), (w * 3 + 1, 1), (w.saturating_sub(1).max(1), h)];
        for _ in 0..3 { targets.push((c.rng.range(1, 40) as u32, c.rng.range(1, 40) as u32)) }
        for i in c.ints.clone() { if i > 0 && i < 1200 { targets.push((i as u32, 1 + c.rng.below(3) as u32)); targets.push((1 + c.rng.below(3) as u32, i as u32)); } }
        for (tw, th) in targets {
            if tw as u64 * th as u64 > 20_000 { continue; }
            for f in filters() {
                let heavy = (w as u64 * h as u64) / (tw as u64 * th as u64).max(1) > 60;
                if heavy && c.rng.chance(70) { continue; }
                let cs = |i: &PixelBuffer<Rgb>| format!("{:?} to {}x{} of {}", f, tw, th, img_str(i));
                let img = if c.rng.chance(50) { c.image01(w, h) } else { uniq.clone() };
                let g = run(|| ops::resize(&img, tw, th, f));
                let r = match &g { Err(e) => Err(e.clone()), Ok(b) => wf(b).and_then(|_| if (b.width(), b.height()) != (tw, th) { Err(format!("result is {}x{}", b.width(), b.height())) } else { Ok(()) }) };
                c.case("resize/dims", || cs(&img), r)?;
                let b = g.unwrap_or_else(|_| unreachable!());
                if (tw, th) == (w, h) { let r = expect(&b, w, h, |x, y| at(&img, x, y)); c.case("resize/identity", || cs(&img), r)?; }
                if let ops::FilterMode::Nearest = f {
                    let set: std::collections::HashSet<[u32; 4]> = img.data().iter().map(bits).collect();
                    let r = match b.data().iter().find(|p| !set.contains(&bits(*p))) { None => Ok(()), Some(p) => Err(format!("pixel {:?} is not a source pixel", p)) };
                    c.case("resize/nearest", || cs(&img), r)?;
                }
                // uniform
                let col = c.color01();
                let u = PixelBuffer::new_with_color(w, h, col);
                let r = run(|| ops::resize(&u, tw, th, f)).and_then(|b| { for p in b.data() { for i in 0..4 { if !((p.data[i] - col.data[i]).abs() <= uni_tol(f)) { return Err(format!("uniform colour {:?} became {:?}", col.data, p.data)); } } } Ok(()) });
                c.case("resize/uniform", || format!("{:?} {}x{} to {}x{} colour {:?}", f, w, h, tw, th, col.data), r)?;
            }
        }
        // rotation
        let mut angles = vec![0.0f32, 360.0, 90.0, 180.0, 270.0, 45.0, -90.0, 30.0, 1.0, 359.0, 720.0, 123.456];
        for _ in 0..3 { angles.push(c.rng.f01() * 800.0 - 400.0) }
        angles.extend(c.floats.clone());
        let bg = Rgb { data: [-3.0, -4.0, -5.0, -6.0] };
        for a in angles {
            for f in filters() {
                let img = if c.rng.chance(50) { c.image01(w, h) } else { uniq.clone() };
                let cs = || format!("{:?} angle={} {}", f, a, img_str(&img));
                let g = run(|| ops::rotate(&img, a, bg, f));
                let r = match &g { Err(e) => Err(e.clone()), Ok(b) => wf(b).and_then(|_| if (b.width(), b.height()) != (w, h) { Err(format!("result is {}x{}", b.width(), b.height())) } else { Ok(()) }) };
                c.case("rotate/dims", cs, r)?;
                let b = g.unwrap_or_else(|_| unreachable!());
                if (a == 0.0 || a == 360.0) && matches!(f, ops::FilterMode::Nearest) { let r = expect(&b, w, h, |x, y| at(&img, x, y)); c.case("rotate/identity", cs, r)?; }
                if matches!(f, ops::FilterMode::Nearest) {
                    let set: std::collections::HashSet<[u32; 4]> = img.data().iter().map(bits).collect();
                    let r = match b.data().iter().find(|p| !set.contains(&bits(*p)) && !same(*p, &bg)) { None => Ok(()), Some(p) => Err(format!("pixel {:?} is neither source nor background", p)) };
                    c.case("rotate/nearest", cs, r)?;
                }
                // pixels clearly outside are background, clearly inside are not (clockwise rotation about the centre)
                let th = (a as f64).to_radians();
                let (cx, cy) = ((w as f64 - 1.0) / 2.0, (h as f64 - 1.0) / 2.0);
                let mut r = Ok(());
                'o: for y in 0..h { for x in 0..w {
                    let (dx, dy) = (x as f64 - cx, y as f64 - cy);
                    let sx = dx * th.cos() + dy * th.sin() + cx;
                    let sy = -dx * th.sin() + dy * th.cos() + cy;
                    let m = 1e-3 * (w.max(h) as f64);
                    let out = sx < -0.5 - m || sy < -0.5 - m || sx > w as f64 - 0.5 + m || sy > h as f64 - 0.5 + m;
                    let inn = sx > -0.5 + m && sy > -0.5 + m && sx < w as f64 - 0.5 - m && sy < h as f64 - 0.5 - m;
                    let p = at(&b, x, y);
                    if out && !same(&p, &bg) { r = Err(format!("pixel ({}, {}) comes from outside ({:.2}, {:.2}) but is {:?}", x, y, sx, sy, p)); break 'o; }
                    if inn && same(&p, &bg) { r = Err(format!("pixel ({}, {}) comes from inside ({:.2}, {:.2}) but is background", x, y, sx, sy)); break 'o; }
                    if inn && matches!(f, ops::FilterMode::Nearest) {
                        // nearest: the prescribed source pixel, away from ties
                        let (fx, fy) = ((sx + 0.5).floor(), (sy + 0.5).floor());
                        if (sx + 0.5 - fx - 0.5).abs() < 0.5 - m && (sy + 0.5 - fy - 0.5).abs() < 0.5 - m && !same(&p, &at(&img, fx as u32, fy as u32)) { r = Err(format!("pixel ({}, {}) should be source pixel ({}, {})", x, y, fx, fy)); break 'o; }
                    }
                } }
                c.case("rotate/placement", cs, r)?;
            }
        }
    }
    Ok(())
}

fn uni_tol(f: ops::FilterMode) -> f32 {
    match f { ops::FilterMode::Nearest => 0.0, _ => UNI }
}
const UNI: f32 = 1e-5;
