use crate::{k, spec::*};
use d10_core::color::illuminant::*;
use d10_core::color::observer::*;
use d10_core::color::*;
use d10_core::pixelbuffer::PixelBuffer;
fn within(a: &[f32], b: &[f32]) -> bool { let mut r = true; for i in 0..4 { if !((a[i] - b[i]).abs() <= EPS) { r = false; } } r }
fn fin4() -> [f32; 4] { [finite(), finite(), finite(), finite()] }
contracts! {
    fn rgb_equality() { let (a, b) = (Rgb { data: fin4() }, Rgb { data: fin4() }); ensure!((a == b) == within(a.data(), b.data()), "equal exactly within the tolerance"); ensure!((a == b) == (b == a)); ensure!(a == a); ensure!((a != b) == !(a == b)); }
    fn rgb_transparency() { let c = Rgb { data: num4() }; ensure!(c.has_transparency() == ((1.0 - c.alpha()).abs() > EPS)); }
    fn srgb_equality() { let (a, b) = (Srgb { data: fin4() }, Srgb { data: fin4() }); ensure!((a == b) == within(a.data(), b.data()), "equal exactly within the tolerance"); ensure!((a == b) == (b == a)); ensure!(a == a); ensure!((a != b) == !(a == b)); }
    fn srgb_transparency() { let c = Srgb { data: num4() }; ensure!(c.has_transparency() == ((1.0 - c.alpha()).abs() > EPS)); }
    fn hsl_equality() { let (a, b) = (Hsl { data: fin4() }, Hsl { data: fin4() }); ensure!((a == b) == within(a.data(), b.data()), "equal exactly within the tolerance"); ensure!((a == b) == (b == a)); ensure!(a == a); ensure!((a != b) == !(a == b)); }
    fn hsl_transparency() { let c = Hsl { data: num4() }; ensure!(c.has_transparency() == ((1.0 - c.alpha()).abs() > EPS)); }
    fn hsv_equality() { let (a, b) = (Hsv { data: fin4() }, Hsv { data: fin4() }); ensure!((a == b) == within(a.data(), b.data()), "equal exactly within the tolerance"); ensure!((a == b) == (b == a)); ensure!(a == a); ensure!((a != b) == !(a == b)); }
    fn hsv_transparency() { let c = Hsv { data: num4() }; ensure!(c.has_transparency() == ((1.0 - c.alpha()).abs() > EPS)); }
    fn yuv_equality() { let (a, b) = (Yuv { data: fin4() }, Yuv { data: fin4() }); ensure!((a == b) == within(a.data(), b.data()), "equal exactly within the tolerance"); ensure!((a == b) == (b == a)); ensure!(a == a); ensure!((a != b) == !(a == b)); }
    fn yuv_transparency() { let c = Yuv { data: num4() }; ensure!(c.has_transparency() == ((1.0 - c.alpha()).abs() > EPS)); }
    fn xyz_equality() { let (a, b) = (Xyz { data: fin4() }, Xyz { data: fin4() }); ensure!((a == b) == within(a.data(), b.data()), "equal exactly within the tolerance"); ensure!((a == b) == (b == a)); ensure!(a == a); ensure!((a != b) == !(a == b)); }
    fn xyz_transparency() { let c = Xyz { data: num4() }; ensure!(c.has_transparency() == ((1.0 - c.alpha()).abs() > EPS)); }
    fn lab_equality() { let (a, b) = ({ let d = fin4(); Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }, { let d = fin4(); Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }); ensure!((a == b) == within(a.data(), b.data()), "equal exactly within the tolerance"); ensure!((a == b) == (b == a)); ensure!(a == a); ensure!((a != b) == !(a == b)); }
    fn lab_transparency() { let c = { let d = num4(); Lab::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; ensure!(c.has_transparency() == ((1.0 - c.alpha()).abs() > EPS)); }
    fn lch_equality() { let (a, b) = ({ let d = fin4(); Lch::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }, { let d = fin4(); Lch::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }); ensure!((a == b) == within(a.data(), b.data()), "equal exactly within the tolerance"); ensure!((a == b) == (b == a)); ensure!(a == a); ensure!((a != b) == !(a == b)); }
    fn lch_transparency() { let c = { let d = num4(); Lch::<D65, O2>::new_with_alpha(d[0], d[1], d[2], d[3]) }; ensure!(c.has_transparency() == ((1.0 - c.alpha()).abs() > EPS)); }
    fn rgb_grayness() { let c = Rgb { data: fin4() }; let d = c.data; ensure!(c.is_grayscale() == ((d[0] - d[1]).abs() < EPS && (d[1] - d[2]).abs() < EPS)); }
    #[kani::unwind(6)]
    fn buffer_transparency_bounded_3() {
        let p = [Rgb { data: num4() }, Rgb { data: num4() }, Rgb { data: num4() }];
        let b = PixelBuffer::new_from_raw(3, 1, p.to_vec());
        ensure!(b.has_transparency() == (p[0].has_transparency() || p[1].has_transparency() || p[2].has_transparency()));
    }
    #[kani::unwind(6)]
    fn buffer_grayness_bounded_3() {
        let p = [Rgb { data: num4() }, Rgb { data: num4() }, Rgb { data: num4() }];
        let b = PixelBuffer::new_from_raw(3, 1, p.to_vec());
        ensure!(b.is_grayscale() == (p[0].is_grayscale() && p[1].is_grayscale() && p[2].is_grayscale()));
    }
}
