use crate::{k, spec::*};
use d10_core::color::*;
#[allow(dead_code, unused_imports)]
mod code { include!("/repo/d10-ops/src/blend.rs"); }
fn unit_rgb() -> Rgb { Rgb { data: unit4() } }
fn in_range(c: &Rgb) -> bool { in01(c.data[0]) && in01(c.data[1]) && in01(c.data[2]) && in01(c.data[3]) }
fn near_all(a: &Rgb, b: &Rgb) -> bool { near(a.data[0], b.data[0], 1e-6) && near(a.data[1], b.data[1], 1e-6) && near(a.data[2], b.data[2], 1e-6) }
fn transparent(c: Rgb) -> Rgb { Rgb { data: [c.data[0], c.data[1], c.data[2], 0.0] } }
fn opaque(c: Rgb) -> Rgb { Rgb { data: [c.data[0], c.data[1], c.data[2], 1.0] } }
fn c01(v: f32) -> f32 { if v < 0.0 { 0.0 } else if v > 1.0 { 1.0 } else { v } }
contracts! {
    fn normal_range() { let r = code::blend_normal(unit_rgb(), unit_rgb(), unit()); ensure!(in_range(&r)); }
    fn addition_range_alpha() { let (a, b) = (unit_rgb(), unit_rgb()); let r = code::blend_addition(a, b, unit()); ensure!(in_range(&r)); ensure!(r.data[3] == b.data[3]); }
    fn subtract_range_alpha() { let (a, b) = (unit_rgb(), unit_rgb()); let r = code::blend_subtract(a, b, unit()); ensure!(in_range(&r)); ensure!(r.data[3] == b.data[3]); }
    fn darken_range_alpha() { let (a, b) = (unit_rgb(), unit_rgb()); let r = code::blend_darken(a, b, unit()); ensure!(in_range(&r)); ensure!(r.data[3] == b.data[3]); }
    fn lighten_range_alpha() { let (a, b) = (unit_rgb(), unit_rgb()); let r = code::blend_lighten(a, b, unit()); ensure!(in_range(&r)); ensure!(r.data[3] == b.data[3]); }
    fn normal_zero_intensity() { let (a, b) = (unit_rgb(), unit_rgb()); let r = code::blend_normal(a, b, 0.0); ensure!(near_all(&r, &a)); ensure!(near(r.data[3], a.data[3], 1e-6)); }
    fn normal_transparent_second() { let (a, b) = (unit_rgb(), transparent(unit_rgb())); let r = code::blend_normal(a, b, unit()); ensure!(near_all(&r, &a)); ensure!(near(r.data[3], a.data[3], 1e-6)); }
    fn normal_opaque_second() { let (a, b) = (unit_rgb(), opaque(unit_rgb())); let r = code::blend_normal(a, b, 1.0); ensure!(near_all(&r, &b)); ensure!(near(r.data[3], 1.0, 1e-6)); }
    fn zero_intensity_keeps_channels() {
        let (a, b) = (unit_rgb(), unit_rgb());
        ensure!(near_all(&code::blend_addition(a, b, 0.0), &a)); ensure!(near_all(&code::blend_subtract(a, b, 0.0), &a));
        ensure!(near_all(&code::blend_darken(a, b, 0.0), &a)); ensure!(near_all(&code::blend_lighten(a, b, 0.0), &a));
    }
    fn full_intensity_addition() { let (a, b) = (unit_rgb(), opaque(unit_rgb())); let i = k::usize(); k::assume(i < 3); let (x, y) = (a.data[i], b.data[i]); ensure!(near(code::blend_addition(a, b, 1.0).data[i], c01(x + y), 1e-6), "the operation's value"); }
    fn full_intensity_subtract() { let (a, b) = (unit_rgb(), opaque(unit_rgb())); let i = k::usize(); k::assume(i < 3); let (x, y) = (a.data[i], b.data[i]); ensure!(near(code::blend_subtract(a, b, 1.0).data[i], c01(x - y), 1e-6), "the operation's value"); }
    fn full_intensity_darken() { let (a, b) = (unit_rgb(), opaque(unit_rgb())); let i = k::usize(); k::assume(i < 3); let (x, y) = (a.data[i], b.data[i]); ensure!(near(code::blend_darken(a, b, 1.0).data[i], if x < y { x } else { y }, 1e-6), "the operation's value"); }
    fn full_intensity_lighten() { let (a, b) = (unit_rgb(), opaque(unit_rgb())); let i = k::usize(); k::assume(i < 3); let (x, y) = (a.data[i], b.data[i]); ensure!(near(code::blend_lighten(a, b, 1.0).data[i], if x < y { y } else { x }, 1e-6), "the operation's value"); }
}
