use crate::{k, spec::*};
#[allow(dead_code, unused_imports)]
mod code { include!(concat!(env!("VX_OUT"), "/c16.rs")); }
use code::*;
fn next_up(a: f32) -> f32 { let u = a.to_bits(); f32::from_bits(if a == 0.0 { 1 } else if u >> 31 == 0 { u + 1 } else { u - 1 }) }
contracts! {
    fn as_u8_nearest() {
        let v = finite(); let r = as_u8(v) as f32; let x = v.max(0.0).min(1.0) * 255.0;
        ensure!((r - x).abs() <= 0.5 + 1e-4, "a nearest sample of the clamped value");
    }
    fn as_u16_nearest() {
        let v = finite(); let r = as_u16(v) as f32; let x = v.max(0.0).min(1.0) * 65535.0;
        ensure!((r - x).abs() <= 0.5 + 0.01, "a nearest sample of the clamped value");
    }
    // monotone on neighbouring floats, hence (induction over the finitely many floats in between) on all
    fn as_u8_monotone() { let a = finite(); let b = next_up(a); k::assume(b.is_finite()); ensure!(as_u8(a) <= as_u8(b), "writing never decreases"); }
    fn as_u16_monotone_outside() { let a = finite(); k::assume(a < 0.0 || a >= 1.0); let b = next_up(a); k::assume(b.is_finite()); ensure!(as_u16(a) <= as_u16(b), "writing never decreases"); }
    fn as_u16_monotone_tiny() { let a = finite(); k::assume(a >= 0.0 && a < 1.0 / 256.0); let b = next_up(a); k::assume(b.is_finite()); ensure!(as_u16(a) <= as_u16(b), "writing never decreases"); }
    fn as_u16_monotone_low() { let a = finite(); k::assume(a >= 1.0 / 256.0 && a < 1.0 / 16.0); let b = next_up(a); k::assume(b.is_finite()); ensure!(as_u16(a) <= as_u16(b), "writing never decreases"); }
    fn as_u16_monotone_mid() { let a = finite(); k::assume(a >= 1.0 / 16.0 && a < 0.25); let b = next_up(a); k::assume(b.is_finite()); ensure!(as_u16(a) <= as_u16(b), "writing never decreases"); }
    fn as_u16_monotone_half() { let a = finite(); k::assume(a >= 0.25 && a < 0.5); let b = next_up(a); k::assume(b.is_finite()); ensure!(as_u16(a) <= as_u16(b), "writing never decreases"); }
    fn as_u16_monotone_top() { let a = finite(); k::assume(a >= 0.5 && a < 1.0); let b = next_up(a); k::assume(b.is_finite()); ensure!(as_u16(a) <= as_u16(b), "writing never decreases"); }
    fn signed_zeros() { ensure!(as_u8(-0.0) == as_u8(0.0)); ensure!(as_u16(-0.0) == as_u16(0.0)); ensure!(as_u8_floor(-0.0) == as_u8_floor(0.0)); }
    fn as_u8_floor_bound() { let v = finite(); let r = as_u8_floor(v) as f32; let x = v.max(0.0).min(1.0) * 255.0; ensure!(r <= x + 1e-4 && r > x - 1.0 - 1e-4, "rounds down"); }
    fn u8_round_trip() { let v = k::u8(); ensure!(as_u8(from_u8(v)) == v); ensure!(in01(from_u8(v))); }
    fn u16_be_round_trip() { let v = k::u16(); ensure!(as_u16(from_u16_be(v.to_be_bytes())) == v); ensure!(in01(from_u16_be(v.to_be_bytes()))); }
    fn u16_ne_round_trip() { let v = k::u16(); ensure!(as_u16(from_u16_ne(v.to_ne_bytes())) == v); }
}
