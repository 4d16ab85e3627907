use crate::{k, spec::*};
use d10_core::color::*;
use d10_core::pixelbuffer::PixelBuffer;
use ::rand as real_rand;
/// A random source that returns anything; after a number of draws it returns a value every rejection loop accepts.
pub struct AnyRng(u8);
impl real_rand::RngCore for AnyRng {
    fn next_u32(&mut self) -> u32 { self.0 += 1; if self.0 > 4 { 1 } else { k::u32() } }
    fn next_u64(&mut self) -> u64 { self.0 += 1; if self.0 > 4 { 1 } else { k::u64() } }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = k::u8(); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), real_rand::Error> { self.fill_bytes(d); Ok(()) }
}
/// The real files, with `rand::thread_rng()` resolved to the arbitrary source.
macro_rules! with_any_rng { ($m:ident, $f:literal) => {
    #[allow(dead_code, unused_imports)]
    mod $m {
        pub mod rand {
            pub use ::rand::{Rng, RngCore, SeedableRng, distributions, seq};
            pub fn thread_rng() -> crate::c20::AnyRng { crate::c20::AnyRng(0) }
            pub mod rngs { pub use crate::c20::AnyRng as ThreadRng; }
            pub mod prelude { pub use ::rand::{Rng, RngCore}; pub use ::rand::distributions::Distribution; pub use super::{thread_rng}; pub use crate::c20::AnyRng as ThreadRng; }
        }
        mod rand_distr { pub struct StandardNormal;
            impl ::rand::distributions::Distribution<f32> for StandardNormal { fn sample<R: ::rand::Rng + ?Sized>(&self, _r: &mut R) -> f32 { let v = crate::k::f32(); crate::k::assume(v >= -64.0 && v <= 64.0); v } } }
        include!($f);
    }
} }
mod f {
    with_any_rng!(salt, "/repo/d10-ops/src/salt_n_pepper_noise.rs");
    with_any_rng!(rgbn, "/repo/d10-ops/src/rgb_noise.rs");
    with_any_rng!(rnd, "/repo/d10-ops/src/random_noise.rs");
    with_any_rng!(gauss, "/repo/d10-ops/src/gaussian_noise.rs");
    pub use gauss::{add_gaussian_noise, gaussian_noise};
    pub use rgbn::{add_rgb_noise, rgb_noise};
    pub use rnd::{add_random_noise, random_noise};
    pub use salt::{add_salt_n_pepper_noise, salt_n_pepper_noise};
}
fn eq4(a: &[f32; 4], b: &[f32; 4]) -> bool { same(a[0], b[0]) && same(a[1], b[1]) && same(a[2], b[2]) && same(a[3], b[3]) }
fn one(c: [f32; 4]) -> PixelBuffer<Rgb> { PixelBuffer::new_with_color(1, 1, Rgb { data: c }) }
fn salt_ok(c: &[f32; 4], t: f32, r: &[f32; 4]) -> bool {
    let black = r[0] == 0.0 && r[1] == 0.0 && r[2] == 0.0 && r[3] == 1.0;
    let white = r[0] == 1.0 && r[1] == 1.0 && r[2] == 1.0 && r[3] == 1.0;
    (black || white || eq4(c, r)) && (t > 0.0 || eq4(c, r)) && (t <= 1.0 || black || white)
}
fn rgb_ok(c: &[f32; 4], t: f32, r: &[f32; 4]) -> bool {
    let full = |i: usize| r[i] == 1.0 && same(r[3], c[3]) && (i == 0 || same(r[0], c[0])) && (i == 1 || same(r[1], c[1])) && (i == 2 || same(r[2], c[2]));
    let changed = full(0) || full(1) || full(2);
    (changed || eq4(c, r)) && (t > 0.0 || eq4(c, r)) && (t <= 1.0 || changed)
}
fn noise_ok(c: &[f32; 4], a: f32, r: &[f32; 4]) -> bool {
    same(r[3], c[3]) && (0..3).all(|i| in01(r[i])) && (a != 0.0 || (0..3).all(|i| near(r[i], c[i], 1e-6)))
}
macro_rules! both { ($copy:ident, $place:ident, $ok:ident, $p:expr) => { {
    let c = unit4(); let t = $p; let b = one(c);
    let place = k::bool();
    let r = if place { let mut m = b.clone(); f::$place(&mut m, t); m } else { f::$copy(&b, t) };
    ensure!(r.width() == 1 && r.height() == 1 && r.data().len() == 1, "same dimensions");
    ensure!(eq4(&b.data()[0].data, &c), "the argument is left alone");
    ensure!($ok(&c, t, &r.data()[0].data), "promised outcome for this draw");
} } }
contracts! {
    #[kani::unwind(8)]
    fn salt_n_pepper_outcomes() { both!(salt_n_pepper_noise, add_salt_n_pepper_noise, salt_ok, num()) }
    #[kani::unwind(8)]
    fn rgb_noise_outcomes() { both!(rgb_noise, add_rgb_noise, rgb_ok, num()) }
    #[kani::unwind(8)]
    fn random_noise_outcomes() { both!(random_noise, add_random_noise, noise_ok, finite()) }
    #[kani::unwind(8)]
    fn gaussian_noise_outcomes() { both!(gaussian_noise, add_gaussian_noise, noise_ok, finite()) }
}
