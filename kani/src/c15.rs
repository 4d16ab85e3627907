use crate::{k, spec::*};
use d10_core::color::*;
contracts! {
    #[kani::stub(f32::powf, crate::spec::powf_contract)]
    fn gamma_to_linear_unit() { let v = unit(); let r = gamma_to_linear(v); ensure!(near01(r)); }
    #[kani::stub(f32::powf, crate::spec::powf_contract)]
    fn fixes_ends() { ensure!(gamma_to_linear(0.0) == 0.0); ensure!(linear_to_gamma(0.0) == 0.0); ensure!(near(gamma_to_linear(1.0), 1.0, 1e-6)); ensure!(near(linear_to_gamma(1.0), 1.0, 1e-6)); }
    #[kani::stub(f32::powf, crate::spec::powf_contract)]
    fn linear_segment() {
        let v = k::f32(); k::assume(v >= 0.0 && v <= 0.003);
        let s = linear_to_gamma(v); ensure!(near(s, v * 12.92, 1e-7)); ensure!(in01(s));
    }
    #[kani::stub(f32::powf, crate::spec::powf_contract)]
    fn linear_segment_back() {
        let s = k::f32(); k::assume(s >= 0.0 && s <= 0.04);
        let b = gamma_to_linear(s); ensure!(near(b, s / 12.92, 1e-7)); ensure!(in01(b));
    }
    #[kani::stub(f32::powf, crate::spec::powf_contract)]
    fn to_srgb_alpha_and_range() { let c = Rgb { data: unit4() }; let s = c.to_srgb(); ensure!(same(s.data[3], c.data[3])); for i in 0..3 { ensure!(in01(s.data[i])); } }
    #[kani::stub(f32::powf, crate::spec::powf_contract)]
    fn from_srgb_alpha_and_range() { let c = Srgb { data: unit4() }; let s = c.to_rgb(); ensure!(same(s.data[3], c.data[3])); for i in 0..3 { ensure!(in01(s.data[i])); } }
    #[kani::stub(f32::powf, crate::spec::powf_contract)]
    fn zero_stays_zero_per_channel() {
        // the channels do not mix: a zero channel stays zero whatever the others are
        let mut d = unit4(); let i = k::usize(); k::assume(i < 3); d[i] = 0.0;
        ensure!(Rgb { data: d }.to_srgb().data[i] == 0.0); ensure!(Srgb { data: d }.to_rgb().data[i] == 0.0);
    }
}
