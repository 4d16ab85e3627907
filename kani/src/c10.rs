use crate::{k, spec::*};
use d10_core::color::*;
fn in_range(c: &Rgb) -> bool { in01(c.data[0]) && in01(c.data[1]) && in01(c.data[2]) }
fn near_range(c: &Rgb) -> bool { near01(c.data[0]) && near01(c.data[1]) && near01(c.data[2]) }
fn close(a: &Rgb, b: &Rgb, e: f32) -> bool { near(a.data[0], b.data[0], e) && near(a.data[1], b.data[1], e) && near(a.data[2], b.data[2], e) }
fn kept(d: &[f32], o: &[f32; 4], n: usize) -> bool { (0..n).all(|i| in01(o[i]) && !(in01(d[i]) && o[i] != d[i])) }
fn hsl_unit() -> Hsl { Hsl { data: unit4() } }
contracts! {
    fn rgb_new() { let d = num4(); let c = Rgb::new(d[0], d[1], d[2]); ensure!(kept(&d, &c.data, 3)); ensure!(c.data[3] == 1.0); }
    fn rgb_new_with_alpha() { let d = num4(); let c = Rgb::new_with_alpha(d[0], d[1], d[2], d[3]); ensure!(kept(&d, &c.data, 4)); }
    fn srgb_new() { let d = num4(); let c = Srgb::new(d[0], d[1], d[2]); ensure!(kept(&d, &c.data, 3)); ensure!(c.data[3] == 1.0); }
    fn srgb_new_with_alpha() { let d = num4(); let c = Srgb::new_with_alpha(d[0], d[1], d[2], d[3]); ensure!(kept(&d, &c.data, 4)); }
    fn map_channels() {
        let c = Rgb { data: unit4() }; let v = num4();
        let n = std::cell::Cell::new(0usize);
        let r = c.map_channels(|_| { let i = n.get(); n.set(i + 1); v[i % 4] });
        ensure!(n.get() == 3); ensure!(kept(&v, &[r.data[0], r.data[1], r.data[2], 0.0], 3));
    }
    #[kani::stub(f32::powf, crate::spec::powf_contract)]
    fn with_gamma() { let c = Rgb { data: unit4() }; let g = finite(); k::assume(g > 0.0); let r = c.with_gamma(g); ensure!(in_range(&r)); }
    #[kani::stub(f32::powf, crate::spec::powf_contract)]
    fn with_gamma_neutral() { let c = Rgb { data: unit4() }; let r = c.with_gamma(1.0); ensure!(close(&r, &c, 1e-6)); }
    #[kani::stub(f32::powf, crate::spec::powf_contract)]
    fn with_gamma_opt() { let c = Rgb { data: unit4() }; let g = finite(); k::assume(g > 0.0); let r = c.with_gamma_opt(g); ensure!(in_range(&r)); }
    #[kani::stub(f32::powf, crate::spec::powf_contract)]
    fn with_gamma_opt_neutral() { let c = Rgb { data: unit4() }; let r = c.with_gamma_opt(1.0); ensure!(close(&r, &c, 1e-6)); }
    #[kani::stub(f32::powf, crate::spec::powf_contract)]
    fn with_level() { let c = Rgb { data: unit4() }; let (b, w, g) = (finite(), finite(), finite()); k::assume(g > 0.0); let r = c.with_level(b, w, g); ensure!(in_range(&r)); }
    #[kani::stub(f32::powf, crate::spec::powf_contract)]
    fn with_level_neutral() { let c = Rgb { data: unit4() }; let r = c.with_level(0.0, 1.0, 1.0); ensure!(close(&r, &c, 1e-6)); }
    fn with_brightness() { let c = Rgb { data: unit4() }; let f = finite(); let r = c.with_brightness(f); ensure!(in_range(&r)); }
    fn with_brightness_neutral() { let c = Rgb { data: unit4() }; let r = c.with_brightness(0.0); ensure!(close(&r, &c, 1e-6)); }
    fn with_contrast() { let c = Rgb { data: unit4() }; let f = finite(); let r = c.with_contrast(f); ensure!(in_range(&r)); }
    fn with_contrast_neutral() { let c = Rgb { data: unit4() }; let r = c.with_contrast(1.0); ensure!(close(&r, &c, 1e-6)); }
    fn with_brightness_contrast() { let c = Rgb { data: unit4() }; let (f, g) = (finite(), finite()); let r = c.with_brightness_contrast(f, g); ensure!(in_range(&r)); }
    fn with_brightness_contrast_neutral() { let c = Rgb { data: unit4() }; let r = c.with_brightness_contrast(0.0, 1.0); ensure!(close(&r, &c, 1e-6)); }
    fn invert() { let c = Rgb { data: unit4() }; let r = c.invert(); ensure!(in_range(&r)); let b = r.invert(); ensure!(close(&b, &c, 1e-6)); }
    fn sepia() { let c = Rgb { data: unit4() }; let r = c.with_sepia(); ensure!(in_range(&r)); }
    fn gray_luma() {
        let c = Rgb { data: unit4() };
        let i = k::u8(); k::assume(i < 8);
        let m = [Intensity::Average, Intensity::Rec601Luma, Intensity::Rec709Luma, Intensity::Brightness, Intensity::Lightness, Intensity::Red, Intensity::Green, Intensity::Blue][i as usize];
        let r = c.to_gray_with_intensity(m);
        ensure!(near_range(&r)); ensure!(r.data[0] == r.data[1] && r.data[1] == r.data[2]);
    }
    fn hsl_saturation() { let c = Rgb { data: unit4() }; let h = c.to_hsl(); ensure!(near01(h.data[0])); ensure!(near01(h.data[1])); ensure!(near01(h.data[2])); }
    fn hsl_to_rgb() { let h = finite(); k::assume(h >= -1e-6 && h <= 1.0 + 1e-6); let s = unit(); let l = unit();
        let c = Hsl { data: [h, s, l, unit()] }.to_rgb(); ensure!(in_range(&c)); }
    fn with_saturation() { let c = Rgb { data: unit4() }; let f = finite(); let r = c.with_saturation(f); ensure!(in_range(&r)); }
    fn stretch_saturation() { let c = Rgb { data: unit4() }; let f = finite(); let r = c.stretch_saturation(f); ensure!(in_range(&r)); }
    fn with_lightness() { let c = Rgb { data: unit4() }; let f = finite(); let r = c.with_lightness(f); ensure!(in_range(&r)); }
    fn with_hue_rotate() { let c = Rgb { data: unit4() }; let f = finite(); let r = c.with_hue_rotate(f); ensure!(in_range(&r)); }
    fn modulate() { let c = Rgb { data: unit4() }; let r = c.modulate(finite(), finite(), finite()); ensure!(in_range(&r)); }
    #[kani::stub(f32::sin, crate::spec::sin_contract)]
    fn with_vibrance() { let c = Rgb { data: unit4() }; let f = finite(); let r = c.with_vibrance(f); ensure!(in_range(&r)); }
    #[kani::stub(f32::powf, crate::spec::powf_contract)]
    fn with_gamma_saturation() { let c = Rgb { data: unit4() }; let f = finite(); k::assume(f > 0.0); let r = c.with_gamma_saturation(f); ensure!(in_range(&r)); }
}
