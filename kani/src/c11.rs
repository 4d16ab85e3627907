use crate::{k, spec::*};
use d10_core::color::illuminant::*;
use d10_core::color::observer::*;
use d10_core::color::*;
// The channels are arbitrary bit patterns (NaN and infinities included); alpha is in [0, 1].
fn rest3(a: &[f32; 4], b: &[f32; 4]) -> bool { same(a[0], b[0]) && same(a[1], b[1]) && same(a[2], b[2]) }
fn arr(c: &[f32]) -> [f32; 4] { [c[0], c[1], c[2], c[3]] }
contracts! {
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn rgb_to_rgb() { let c = Rgb { data: any3a() }; let a = c.alpha(); let r = c.to_rgb(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn rgb_to_srgb() { let c = Rgb { data: any3a() }; let a = c.alpha(); let r = c.to_srgb(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn rgb_to_hsl() { let c = Rgb { data: any3a() }; let a = c.alpha(); let r = c.to_hsl(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn rgb_to_hsv() { let c = Rgb { data: any3a() }; let a = c.alpha(); let r = c.to_hsv(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn rgb_to_yuv() { let c = Rgb { data: any3a() }; let a = c.alpha(); let r = c.to_yuv(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn rgb_to_xyz() { let c = Rgb { data: any3a() }; let a = c.alpha(); let r = c.to_xyz(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn rgb_to_lab() { let c = Rgb { data: any3a() }; let a = c.alpha(); let r = c.to_lab::<D65, O2>(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn rgb_to_lch() { let c = Rgb { data: any3a() }; let a = c.alpha(); let r = c.to_lch::<D65, O2>(); ensure!(same(r.alpha(), a)); }
    fn rgb_replace() {
        let c = Rgb { data: any3a() }; let o = arr(c.data()); let v = k::f32(); let i = k::usize(); k::assume(i < 4);
        ensure!(same(c.alpha(), o[3]));
        let r = c.with_alpha(v); ensure!(same(r.alpha(), v) && rest3(&arr(r.data()), &o));
        let mut m = c; m.set_alpha(v); ensure!(same(m.alpha(), v) && rest3(&arr(m.data()), &o));
        let mut m = c; m.data_mut()[i] = v; for j in 0..4 { ensure!(same(m.data()[j], if i == j { v } else { o[j] })); }
        ensure!(c.data().len() == 4);
    }
    fn rgb_map_channels() {
        let c = Rgb { data: any3a() }; let o = arr(c.data()); let v = [k::f32(), k::f32(), k::f32()];
        for x in v { k::assume(!x.is_nan()); }
        let n = std::cell::Cell::new(0usize);
        let mut seen = [0.0f32; 3];
        let r = c.map_color_channels(|x| { let i = n.get(); if i < 3 { seen[i] = x; } n.set(i + 1); v[i % 3] });
        ensure!(n.get() == 3, "each of the three channels once"); ensure!(same(r.alpha(), o[3]));
        ensure!(same(seen[0], o[0]) && same(seen[1], o[1]) && same(seen[2], o[2]));
        let m = std::cell::Cell::new(0usize); let stop = k::usize(); k::assume(stop < 4);
        let e: Result<_, u8> = c.try_map_color_channels(|_| { let i = m.get(); m.set(i + 1); if i == stop { Err(7) } else { Ok(v[i % 3]) } });
        match e { Ok(r) => { ensure!(stop == 3); ensure!(same(r.alpha(), o[3])); } Err(x) => { ensure!(stop < 3 && x == 7 && m.get() == stop + 1); } }
    }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn srgb_to_rgb() { let c = Srgb { data: any3a() }; let a = c.alpha(); let r = c.to_rgb(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn srgb_to_srgb() { let c = Srgb { data: any3a() }; let a = c.alpha(); let r = c.to_srgb(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn srgb_to_hsl() { let c = Srgb { data: any3a() }; let a = c.alpha(); let r = c.to_hsl(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn srgb_to_hsv() { let c = Srgb { data: any3a() }; let a = c.alpha(); let r = c.to_hsv(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn srgb_to_yuv() { let c = Srgb { data: any3a() }; let a = c.alpha(); let r = c.to_yuv(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn srgb_to_xyz() { let c = Srgb { data: any3a() }; let a = c.alpha(); let r = c.to_xyz(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn srgb_to_lab() { let c = Srgb { data: any3a() }; let a = c.alpha(); let r = c.to_lab::<D65, O2>(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn srgb_to_lch() { let c = Srgb { data: any3a() }; let a = c.alpha(); let r = c.to_lch::<D65, O2>(); ensure!(same(r.alpha(), a)); }
    fn srgb_replace() {
        let c = Srgb { data: any3a() }; let o = arr(c.data()); let v = k::f32(); let i = k::usize(); k::assume(i < 4);
        ensure!(same(c.alpha(), o[3]));
        let r = c.with_alpha(v); ensure!(same(r.alpha(), v) && rest3(&arr(r.data()), &o));
        let mut m = c; m.set_alpha(v); ensure!(same(m.alpha(), v) && rest3(&arr(m.data()), &o));
        let mut m = c; m.data_mut()[i] = v; for j in 0..4 { ensure!(same(m.data()[j], if i == j { v } else { o[j] })); }
        ensure!(c.data().len() == 4);
    }
    fn srgb_map_channels() {
        let c = Srgb { data: any3a() }; let o = arr(c.data()); let v = [k::f32(), k::f32(), k::f32()];
        for x in v { k::assume(!x.is_nan()); }
        let n = std::cell::Cell::new(0usize);
        let mut seen = [0.0f32; 3];
        let r = c.map_color_channels(|x| { let i = n.get(); if i < 3 { seen[i] = x; } n.set(i + 1); v[i % 3] });
        ensure!(n.get() == 3, "each of the three channels once"); ensure!(same(r.alpha(), o[3]));
        ensure!(same(seen[0], o[0]) && same(seen[1], o[1]) && same(seen[2], o[2]));
        let m = std::cell::Cell::new(0usize); let stop = k::usize(); k::assume(stop < 4);
        let e: Result<_, u8> = c.try_map_color_channels(|_| { let i = m.get(); m.set(i + 1); if i == stop { Err(7) } else { Ok(v[i % 3]) } });
        match e { Ok(r) => { ensure!(stop == 3); ensure!(same(r.alpha(), o[3])); } Err(x) => { ensure!(stop < 3 && x == 7 && m.get() == stop + 1); } }
    }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn hsl_to_rgb() { let c = Hsl { data: any3a() }; let a = c.alpha(); let r = c.to_rgb(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn hsl_to_srgb() { let c = Hsl { data: any3a() }; let a = c.alpha(); let r = c.to_srgb(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn hsl_to_hsl() { let c = Hsl { data: any3a() }; let a = c.alpha(); let r = c.to_hsl(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn hsl_to_hsv() { let c = Hsl { data: any3a() }; let a = c.alpha(); let r = c.to_hsv(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn hsl_to_yuv() { let c = Hsl { data: any3a() }; let a = c.alpha(); let r = c.to_yuv(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn hsl_to_xyz() { let c = Hsl { data: any3a() }; let a = c.alpha(); let r = c.to_xyz(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn hsl_to_lab() { let c = Hsl { data: any3a() }; let a = c.alpha(); let r = c.to_lab::<D65, O2>(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn hsl_to_lch() { let c = Hsl { data: any3a() }; let a = c.alpha(); let r = c.to_lch::<D65, O2>(); ensure!(same(r.alpha(), a)); }
    fn hsl_replace() {
        let c = Hsl { data: any3a() }; let o = arr(c.data()); let v = k::f32(); let i = k::usize(); k::assume(i < 4);
        ensure!(same(c.alpha(), o[3]));
        let r = c.with_alpha(v); ensure!(same(r.alpha(), v) && rest3(&arr(r.data()), &o));
        let mut m = c; m.set_alpha(v); ensure!(same(m.alpha(), v) && rest3(&arr(m.data()), &o));
        let mut m = c; m.data_mut()[i] = v; for j in 0..4 { ensure!(same(m.data()[j], if i == j { v } else { o[j] })); }
        ensure!(c.data().len() == 4);
    }
    fn hsl_map_channels() {
        let c = Hsl { data: any3a() }; let o = arr(c.data()); let v = [k::f32(), k::f32(), k::f32()];
        for x in v { k::assume(!x.is_nan()); }
        let n = std::cell::Cell::new(0usize);
        let mut seen = [0.0f32; 3];
        let r = c.map_color_channels(|x| { let i = n.get(); if i < 3 { seen[i] = x; } n.set(i + 1); v[i % 3] });
        ensure!(n.get() == 3, "each of the three channels once"); ensure!(same(r.alpha(), o[3]));
        ensure!(same(seen[0], o[0]) && same(seen[1], o[1]) && same(seen[2], o[2]));
        let m = std::cell::Cell::new(0usize); let stop = k::usize(); k::assume(stop < 4);
        let e: Result<_, u8> = c.try_map_color_channels(|_| { let i = m.get(); m.set(i + 1); if i == stop { Err(7) } else { Ok(v[i % 3]) } });
        match e { Ok(r) => { ensure!(stop == 3); ensure!(same(r.alpha(), o[3])); } Err(x) => { ensure!(stop < 3 && x == 7 && m.get() == stop + 1); } }
    }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn hsv_to_rgb() { let c = Hsv { data: any3a() }; let a = c.alpha(); let r = c.to_rgb(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn hsv_to_srgb() { let c = Hsv { data: any3a() }; let a = c.alpha(); let r = c.to_srgb(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn hsv_to_hsl() { let c = Hsv { data: any3a() }; let a = c.alpha(); let r = c.to_hsl(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn hsv_to_hsv() { let c = Hsv { data: any3a() }; let a = c.alpha(); let r = c.to_hsv(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn hsv_to_yuv() { let c = Hsv { data: any3a() }; let a = c.alpha(); let r = c.to_yuv(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn hsv_to_xyz() { let c = Hsv { data: any3a() }; let a = c.alpha(); let r = c.to_xyz(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn hsv_to_lab() { let c = Hsv { data: any3a() }; let a = c.alpha(); let r = c.to_lab::<D65, O2>(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn hsv_to_lch() { let c = Hsv { data: any3a() }; let a = c.alpha(); let r = c.to_lch::<D65, O2>(); ensure!(same(r.alpha(), a)); }
    fn hsv_replace() {
        let c = Hsv { data: any3a() }; let o = arr(c.data()); let v = k::f32(); let i = k::usize(); k::assume(i < 4);
        ensure!(same(c.alpha(), o[3]));
        let r = c.with_alpha(v); ensure!(same(r.alpha(), v) && rest3(&arr(r.data()), &o));
        let mut m = c; m.set_alpha(v); ensure!(same(m.alpha(), v) && rest3(&arr(m.data()), &o));
        let mut m = c; m.data_mut()[i] = v; for j in 0..4 { ensure!(same(m.data()[j], if i == j { v } else { o[j] })); }
        ensure!(c.data().len() == 4);
    }
    fn hsv_map_channels() {
        let c = Hsv { data: any3a() }; let o = arr(c.data()); let v = [k::f32(), k::f32(), k::f32()];
        for x in v { k::assume(!x.is_nan()); }
        let n = std::cell::Cell::new(0usize);
        let mut seen = [0.0f32; 3];
        let r = c.map_color_channels(|x| { let i = n.get(); if i < 3 { seen[i] = x; } n.set(i + 1); v[i % 3] });
        ensure!(n.get() == 3, "each of the three channels once"); ensure!(same(r.alpha(), o[3]));
        ensure!(same(seen[0], o[0]) && same(seen[1], o[1]) && same(seen[2], o[2]));
        let m = std::cell::Cell::new(0usize); let stop = k::usize(); k::assume(stop < 4);
        let e: Result<_, u8> = c.try_map_color_channels(|_| { let i = m.get(); m.set(i + 1); if i == stop { Err(7) } else { Ok(v[i % 3]) } });
        match e { Ok(r) => { ensure!(stop == 3); ensure!(same(r.alpha(), o[3])); } Err(x) => { ensure!(stop < 3 && x == 7 && m.get() == stop + 1); } }
    }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn yuv_to_rgb() { let c = Yuv { data: any3a() }; let a = c.alpha(); let r = c.to_rgb(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn yuv_to_srgb() { let c = Yuv { data: any3a() }; let a = c.alpha(); let r = c.to_srgb(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn yuv_to_hsl() { let c = Yuv { data: any3a() }; let a = c.alpha(); let r = c.to_hsl(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn yuv_to_hsv() { let c = Yuv { data: any3a() }; let a = c.alpha(); let r = c.to_hsv(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn yuv_to_yuv() { let c = Yuv { data: any3a() }; let a = c.alpha(); let r = c.to_yuv(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn yuv_to_xyz() { let c = Yuv { data: any3a() }; let a = c.alpha(); let r = c.to_xyz(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn yuv_to_lab() { let c = Yuv { data: any3a() }; let a = c.alpha(); let r = c.to_lab::<D65, O2>(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn yuv_to_lch() { let c = Yuv { data: any3a() }; let a = c.alpha(); let r = c.to_lch::<D65, O2>(); ensure!(same(r.alpha(), a)); }
    fn yuv_replace() {
        let c = Yuv { data: any3a() }; let o = arr(c.data()); let v = k::f32(); let i = k::usize(); k::assume(i < 4);
        ensure!(same(c.alpha(), o[3]));
        let r = c.with_alpha(v); ensure!(same(r.alpha(), v) && rest3(&arr(r.data()), &o));
        let mut m = c; m.set_alpha(v); ensure!(same(m.alpha(), v) && rest3(&arr(m.data()), &o));
        let mut m = c; m.data_mut()[i] = v; for j in 0..4 { ensure!(same(m.data()[j], if i == j { v } else { o[j] })); }
        ensure!(c.data().len() == 4);
    }
    fn yuv_map_channels() {
        let c = Yuv { data: any3a() }; let o = arr(c.data()); let v = [k::f32(), k::f32(), k::f32()];
        for x in v { k::assume(!x.is_nan()); }
        let n = std::cell::Cell::new(0usize);
        let mut seen = [0.0f32; 3];
        let r = c.map_color_channels(|x| { let i = n.get(); if i < 3 { seen[i] = x; } n.set(i + 1); v[i % 3] });
        ensure!(n.get() == 3, "each of the three channels once"); ensure!(same(r.alpha(), o[3]));
        ensure!(same(seen[0], o[0]) && same(seen[1], o[1]) && same(seen[2], o[2]));
        let m = std::cell::Cell::new(0usize); let stop = k::usize(); k::assume(stop < 4);
        let e: Result<_, u8> = c.try_map_color_channels(|_| { let i = m.get(); m.set(i + 1); if i == stop { Err(7) } else { Ok(v[i % 3]) } });
        match e { Ok(r) => { ensure!(stop == 3); ensure!(same(r.alpha(), o[3])); } Err(x) => { ensure!(stop < 3 && x == 7 && m.get() == stop + 1); } }
    }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn xyz_to_rgb() { let c = Xyz { data: any3a() }; let a = c.alpha(); let r = c.to_rgb(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn xyz_to_srgb() { let c = Xyz { data: any3a() }; let a = c.alpha(); let r = c.to_srgb(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn xyz_to_hsl() { let c = Xyz { data: any3a() }; let a = c.alpha(); let r = c.to_hsl(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn xyz_to_hsv() { let c = Xyz { data: any3a() }; let a = c.alpha(); let r = c.to_hsv(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn xyz_to_yuv() { let c = Xyz { data: any3a() }; let a = c.alpha(); let r = c.to_yuv(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn xyz_to_xyz() { let c = Xyz { data: any3a() }; let a = c.alpha(); let r = c.to_xyz(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn xyz_to_lab() { let c = Xyz { data: any3a() }; let a = c.alpha(); let r = c.to_lab::<D65, O2>(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn xyz_to_lch() { let c = Xyz { data: any3a() }; let a = c.alpha(); let r = c.to_lch::<D65, O2>(); ensure!(same(r.alpha(), a)); }
    fn xyz_replace() {
        let c = Xyz { data: any3a() }; let o = arr(c.data()); let v = k::f32(); let i = k::usize(); k::assume(i < 4);
        ensure!(same(c.alpha(), o[3]));
        let r = c.with_alpha(v); ensure!(same(r.alpha(), v) && rest3(&arr(r.data()), &o));
        let mut m = c; m.set_alpha(v); ensure!(same(m.alpha(), v) && rest3(&arr(m.data()), &o));
        let mut m = c; m.data_mut()[i] = v; for j in 0..4 { ensure!(same(m.data()[j], if i == j { v } else { o[j] })); }
        ensure!(c.data().len() == 4);
    }
    fn xyz_map_channels() {
        let c = Xyz { data: any3a() }; let o = arr(c.data()); let v = [k::f32(), k::f32(), k::f32()];
        for x in v { k::assume(!x.is_nan()); }
        let n = std::cell::Cell::new(0usize);
        let mut seen = [0.0f32; 3];
        let r = c.map_color_channels(|x| { let i = n.get(); if i < 3 { seen[i] = x; } n.set(i + 1); v[i % 3] });
        ensure!(n.get() == 3, "each of the three channels once"); ensure!(same(r.alpha(), o[3]));
        ensure!(same(seen[0], o[0]) && same(seen[1], o[1]) && same(seen[2], o[2]));
        let m = std::cell::Cell::new(0usize); let stop = k::usize(); k::assume(stop < 4);
        let e: Result<_, u8> = c.try_map_color_channels(|_| { let i = m.get(); m.set(i + 1); if i == stop { Err(7) } else { Ok(v[i % 3]) } });
        match e { Ok(r) => { ensure!(stop == 3); ensure!(same(r.alpha(), o[3])); } Err(x) => { ensure!(stop < 3 && x == 7 && m.get() == stop + 1); } }
    }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn lab_to_rgb() { let c = { let d = any3a(); Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let a = c.alpha(); let r = c.to_rgb(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn lab_to_srgb() { let c = { let d = any3a(); Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let a = c.alpha(); let r = c.to_srgb(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn lab_to_hsl() { let c = { let d = any3a(); Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let a = c.alpha(); let r = c.to_hsl(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn lab_to_hsv() { let c = { let d = any3a(); Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let a = c.alpha(); let r = c.to_hsv(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn lab_to_yuv() { let c = { let d = any3a(); Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let a = c.alpha(); let r = c.to_yuv(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn lab_to_xyz() { let c = { let d = any3a(); Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let a = c.alpha(); let r = c.to_xyz(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn lab_to_lab() { let c = { let d = any3a(); Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let a = c.alpha(); let r = c.to_lab::<D65, O2>(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn lab_to_lch() { let c = { let d = any3a(); Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let a = c.alpha(); let r = c.to_lch::<D65, O2>(); ensure!(same(r.alpha(), a)); }
    fn lab_replace() {
        let c = { let d = any3a(); Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let o = arr(c.data()); let v = k::f32(); let i = k::usize(); k::assume(i < 4);
        ensure!(same(c.alpha(), o[3]));
        let r = c.with_alpha(v); ensure!(same(r.alpha(), v) && rest3(&arr(r.data()), &o));
        let mut m = c; m.set_alpha(v); ensure!(same(m.alpha(), v) && rest3(&arr(m.data()), &o));
        let mut m = c; m.data_mut()[i] = v; for j in 0..4 { ensure!(same(m.data()[j], if i == j { v } else { o[j] })); }
        ensure!(c.data().len() == 4);
    }
    fn lab_map_channels() {
        let c = { let d = any3a(); Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let o = arr(c.data()); let v = [k::f32(), k::f32(), k::f32()];
        for x in v { k::assume(!x.is_nan()); }
        let n = std::cell::Cell::new(0usize);
        let mut seen = [0.0f32; 3];
        let r = c.map_color_channels(|x| { let i = n.get(); if i < 3 { seen[i] = x; } n.set(i + 1); v[i % 3] });
        ensure!(n.get() == 3, "each of the three channels once"); ensure!(same(r.alpha(), o[3]));
        ensure!(same(seen[0], o[0]) && same(seen[1], o[1]) && same(seen[2], o[2]));
        let m = std::cell::Cell::new(0usize); let stop = k::usize(); k::assume(stop < 4);
        let e: Result<_, u8> = c.try_map_color_channels(|_| { let i = m.get(); m.set(i + 1); if i == stop { Err(7) } else { Ok(v[i % 3]) } });
        match e { Ok(r) => { ensure!(stop == 3); ensure!(same(r.alpha(), o[3])); } Err(x) => { ensure!(stop < 3 && x == 7 && m.get() == stop + 1); } }
    }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn lch_to_rgb() { let c = { let d = any3a(); Lch::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let a = c.alpha(); let r = c.to_rgb(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn lch_to_srgb() { let c = { let d = any3a(); Lch::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let a = c.alpha(); let r = c.to_srgb(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn lch_to_hsl() { let c = { let d = any3a(); Lch::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let a = c.alpha(); let r = c.to_hsl(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn lch_to_hsv() { let c = { let d = any3a(); Lch::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let a = c.alpha(); let r = c.to_hsv(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn lch_to_yuv() { let c = { let d = any3a(); Lch::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let a = c.alpha(); let r = c.to_yuv(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn lch_to_xyz() { let c = { let d = any3a(); Lch::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let a = c.alpha(); let r = c.to_xyz(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn lch_to_lab() { let c = { let d = any3a(); Lch::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let a = c.alpha(); let r = c.to_lab::<D65, O2>(); ensure!(same(r.alpha(), a)); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn lch_to_lch() { let c = { let d = any3a(); Lch::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let a = c.alpha(); let r = c.to_lch::<D65, O2>(); ensure!(same(r.alpha(), a)); }
    fn lch_replace() {
        let c = { let d = any3a(); Lch::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let o = arr(c.data()); let v = k::f32(); let i = k::usize(); k::assume(i < 4);
        ensure!(same(c.alpha(), o[3]));
        let r = c.with_alpha(v); ensure!(same(r.alpha(), v) && rest3(&arr(r.data()), &o));
        let mut m = c; m.set_alpha(v); ensure!(same(m.alpha(), v) && rest3(&arr(m.data()), &o));
        let mut m = c; m.data_mut()[i] = v; for j in 0..4 { ensure!(same(m.data()[j], if i == j { v } else { o[j] })); }
        ensure!(c.data().len() == 4);
    }
    fn lch_map_channels() {
        let c = { let d = any3a(); Lch::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let o = arr(c.data()); let v = [k::f32(), k::f32(), k::f32()];
        for x in v { k::assume(!x.is_nan()); }
        let n = std::cell::Cell::new(0usize);
        let mut seen = [0.0f32; 3];
        let r = c.map_color_channels(|x| { let i = n.get(); if i < 3 { seen[i] = x; } n.set(i + 1); v[i % 3] });
        ensure!(n.get() == 3, "each of the three channels once"); ensure!(same(r.alpha(), o[3]));
        ensure!(same(seen[0], o[0]) && same(seen[1], o[1]) && same(seen[2], o[2]));
        let m = std::cell::Cell::new(0usize); let stop = k::usize(); k::assume(stop < 4);
        let e: Result<_, u8> = c.try_map_color_channels(|_| { let i = m.get(); m.set(i + 1); if i == stop { Err(7) } else { Ok(v[i % 3]) } });
        match e { Ok(r) => { ensure!(stop == 3); ensure!(same(r.alpha(), o[3])); } Err(x) => { ensure!(stop < 3 && x == 7 && m.get() == stop + 1); } }
    }
    fn rgb_channels() {
        let c = Rgb { data: any3a() }; let o = arr(c.data()); let v = k::f32();
        ensure!(same(c.red(), o[0])); let r = arr(c.with_red(v).data()); let mut m = c; m.set_red(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 0 { v } else { o[j] })); ensure!(same(m[j], if j == 0 { v } else { o[j] })); }
        ensure!(same(c.green(), o[1])); let r = arr(c.with_green(v).data()); let mut m = c; m.set_green(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 1 { v } else { o[j] })); ensure!(same(m[j], if j == 1 { v } else { o[j] })); }
        ensure!(same(c.blue(), o[2])); let r = arr(c.with_blue(v).data()); let mut m = c; m.set_blue(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 2 { v } else { o[j] })); ensure!(same(m[j], if j == 2 { v } else { o[j] })); }
    }
    fn srgb_channels() {
        let c = Srgb { data: any3a() }; let o = arr(c.data()); let v = k::f32();
        ensure!(same(c.red(), o[0])); let r = arr(c.with_red(v).data()); let mut m = c; m.set_red(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 0 { v } else { o[j] })); ensure!(same(m[j], if j == 0 { v } else { o[j] })); }
        ensure!(same(c.green(), o[1])); let r = arr(c.with_green(v).data()); let mut m = c; m.set_green(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 1 { v } else { o[j] })); ensure!(same(m[j], if j == 1 { v } else { o[j] })); }
        ensure!(same(c.blue(), o[2])); let r = arr(c.with_blue(v).data()); let mut m = c; m.set_blue(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 2 { v } else { o[j] })); ensure!(same(m[j], if j == 2 { v } else { o[j] })); }
    }
    fn hsl_channels() {
        let c = Hsl { data: any3a() }; let o = arr(c.data()); let v = k::f32();
        ensure!(same(c.hue(), o[0])); let r = arr(c.with_hue(v).data()); let mut m = c; m.set_hue(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 0 { v } else { o[j] })); ensure!(same(m[j], if j == 0 { v } else { o[j] })); }
        ensure!(same(c.saturation(), o[1])); let r = arr(c.with_saturation(v).data()); let mut m = c; m.set_saturation(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 1 { v } else { o[j] })); ensure!(same(m[j], if j == 1 { v } else { o[j] })); }
        ensure!(same(c.lightness(), o[2])); let r = arr(c.with_lightness(v).data()); let mut m = c; m.set_lightness(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 2 { v } else { o[j] })); ensure!(same(m[j], if j == 2 { v } else { o[j] })); }
    }
    fn hsv_channels() {
        let c = Hsv { data: any3a() }; let o = arr(c.data()); let v = k::f32();
        ensure!(same(c.hue(), o[0])); let r = arr(c.with_hue(v).data()); let mut m = c; m.set_hue(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 0 { v } else { o[j] })); ensure!(same(m[j], if j == 0 { v } else { o[j] })); }
        ensure!(same(c.saturation(), o[1])); let r = arr(c.with_saturation(v).data()); let mut m = c; m.set_saturation(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 1 { v } else { o[j] })); ensure!(same(m[j], if j == 1 { v } else { o[j] })); }
        ensure!(same(c.value(), o[2])); let r = arr(c.with_value(v).data()); let mut m = c; m.set_value(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 2 { v } else { o[j] })); ensure!(same(m[j], if j == 2 { v } else { o[j] })); }
    }
    fn lab_channels() {
        let c = { let d = any3a(); Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let o = arr(c.data()); let v = k::f32();
        ensure!(same(c.l(), o[0])); let r = arr(c.with_l(v).data()); let mut m = c; m.set_l(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 0 { v } else { o[j] })); ensure!(same(m[j], if j == 0 { v } else { o[j] })); }
        ensure!(same(c.a(), o[1])); let r = arr(c.with_a(v).data()); let mut m = c; m.set_a(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 1 { v } else { o[j] })); ensure!(same(m[j], if j == 1 { v } else { o[j] })); }
        ensure!(same(c.b(), o[2])); let r = arr(c.with_b(v).data()); let mut m = c; m.set_b(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 2 { v } else { o[j] })); ensure!(same(m[j], if j == 2 { v } else { o[j] })); }
    }
    fn lch_channels() {
        let c = { let d = any3a(); Lch::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; let o = arr(c.data()); let v = k::f32();
        ensure!(same(c.l(), o[0])); let r = arr(c.with_l(v).data()); let mut m = c; m.set_l(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 0 { v } else { o[j] })); ensure!(same(m[j], if j == 0 { v } else { o[j] })); }
        ensure!(same(c.c(), o[1])); let r = arr(c.with_c(v).data()); let mut m = c; m.set_c(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 1 { v } else { o[j] })); ensure!(same(m[j], if j == 1 { v } else { o[j] })); }
        ensure!(same(c.h(), o[2])); let r = arr(c.with_h(v).data()); let mut m = c; m.set_h(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 2 { v } else { o[j] })); ensure!(same(m[j], if j == 2 { v } else { o[j] })); }
    }
    fn yuv_channels() {
        let c = Yuv { data: any3a() }; let o = arr(c.data()); let v = k::f32();
        ensure!(same(c.y(), o[0])); let r = arr(c.with_y(v).data()); let mut m = c; m.set_y(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 0 { v } else { o[j] })); ensure!(same(m[j], if j == 0 { v } else { o[j] })); }
        ensure!(same(c.u(), o[1])); let r = arr(c.with_u(v).data()); let mut m = c; m.set_u(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 1 { v } else { o[j] })); ensure!(same(m[j], if j == 1 { v } else { o[j] })); }
        ensure!(same(c.v(), o[2])); let r = arr(c.with_v(v).data()); let mut m = c; m.set_v(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 2 { v } else { o[j] })); ensure!(same(m[j], if j == 2 { v } else { o[j] })); }
    }
    fn xyz_channels() {
        let c = Xyz { data: any3a() }; let o = arr(c.data()); let v = k::f32();
        ensure!(same(c.x(), o[0])); let r = arr(c.with_x(v).data()); let mut m = c; m.set_x(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 0 { v } else { o[j] })); ensure!(same(m[j], if j == 0 { v } else { o[j] })); }
        ensure!(same(c.y(), o[1])); let r = arr(c.with_y(v).data()); let mut m = c; m.set_y(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 1 { v } else { o[j] })); ensure!(same(m[j], if j == 1 { v } else { o[j] })); }
        ensure!(same(c.z(), o[2])); let r = arr(c.with_z(v).data()); let mut m = c; m.set_z(v); let m = arr(m.data());
        for j in 0..4 { ensure!(same(r[j], if j == 2 { v } else { o[j] })); ensure!(same(m[j], if j == 2 { v } else { o[j] })); }
    }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_invert() { let c = Rgb { data: any3a() }; let r = c.invert(); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_with_gamma() { let c = Rgb { data: any3a() }; let r = c.with_gamma(k::f32()); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_with_gamma_opt() { let c = Rgb { data: any3a() }; let r = c.with_gamma_opt(k::f32()); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_with_level() { let c = Rgb { data: any3a() }; let r = c.with_level(k::f32(), k::f32(), k::f32()); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_with_brightness() { let c = Rgb { data: any3a() }; let r = c.with_brightness(k::f32()); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_with_contrast() { let c = Rgb { data: any3a() }; let r = c.with_contrast(k::f32()); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_with_brightness_contrast() { let c = Rgb { data: any3a() }; let r = c.with_brightness_contrast(k::f32(), k::f32()); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_with_saturation() { let c = Rgb { data: any3a() }; let r = c.with_saturation(k::f32()); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_stretch_saturation() { let c = Rgb { data: any3a() }; let r = c.stretch_saturation(k::f32()); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_with_gamma_saturation() { let c = Rgb { data: any3a() }; let r = c.with_gamma_saturation(k::f32()); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_with_lightness() { let c = Rgb { data: any3a() }; let r = c.with_lightness(k::f32()); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_with_hue_rotate() { let c = Rgb { data: any3a() }; let r = c.with_hue_rotate(k::f32()); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_modulate() { let c = Rgb { data: any3a() }; let r = c.modulate(k::f32(), k::f32(), k::f32()); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_with_vibrance() { let c = Rgb { data: any3a() }; let r = c.with_vibrance(k::f32()); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_with_sepia() { let c = Rgb { data: any3a() }; let r = c.with_sepia(); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_to_gray() { let c = Rgb { data: any3a() }; let r = c.to_gray(); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_map_channels() { let c = Rgb { data: any3a() }; let r = c.map_channels(|_| 0.5); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_map_channels_unclamped() { let c = Rgb { data: any3a() }; let r = c.map_channels_unclamped(|_| 0.5); ensure!(same(r.alpha(), c.data[3])); }
    #[kani::stub(f32::powf, crate::spec::any_f32_2)]
    #[kani::stub(f32::sin, crate::spec::any_f32)]
    #[kani::stub(f32::cos, crate::spec::any_f32)]
    #[kani::stub(f32::atan2, crate::spec::any_f32_2)]
    #[kani::stub(f32::sqrt, crate::spec::any_f32)]
    fn adjust_to_gray_with_intensity() {
        let c = Rgb { data: any3a() }; let i = k::u8(); k::assume(i < 9);
        let m = [Intensity::Average, Intensity::Rec601Luma, Intensity::Rec709Luma, Intensity::Brightness, Intensity::Lightness, Intensity::Saturation, Intensity::Red, Intensity::Green, Intensity::Blue][i as usize];
        let r = c.to_gray_with_intensity(m); ensure!(same(r.alpha(), c.data[3]));
    }
    fn adjust_mod_color_channels() { let mut c = Rgb { data: any3a() }; let a = c.data[3]; c.mod_color_channels(|_| 0.5); ensure!(same(c.data[3], a)); }
}
