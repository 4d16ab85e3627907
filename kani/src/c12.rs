use crate::{k, spec::*};
use d10_core::color::*;
fn gray() -> Rgb { let v = unit(); Rgb { data: [v, v, v, unit()] } }
contracts! {
    fn to_hsl_range() {
        let c = Rgb { data: unit4() }; let h = c.to_hsl();
        ensure!(near01(h.data[0]), "hue in range and not NaN"); ensure!(near01(h.data[1]), "saturation in range and not NaN"); ensure!(near01(h.data[2]), "lightness in range and not NaN");
    }
    fn to_hsv_range() {
        let c = Rgb { data: unit4() }; let h = c.to_hsv();
        ensure!(near01(h.data[0]), "hue in range and not NaN"); ensure!(near01(h.data[1]), "saturation in range and not NaN"); ensure!(near01(h.data[2]), "value in range and not NaN");
    }
    fn to_hsl_gray() { let c = gray(); let h = c.to_hsl(); ensure!(h.data[0] == 0.0 && h.data[1] == 0.0); ensure!(near(h.data[2], c.data[0], 1e-6)); }
    fn to_hsv_gray() { let c = gray(); let h = c.to_hsv(); ensure!(h.data[0] == 0.0 && h.data[1] == 0.0); ensure!(near(h.data[2], c.data[0], 1e-6)); }
    fn hsl_to_rgb_range() { let c = Hsl { data: unit4() }.to_rgb(); for i in 0..4 { ensure!(in01(c.data[i])); } }
    fn hsv_to_rgb_range() { let c = Hsv { data: unit4() }.to_rgb(); for i in 0..4 { ensure!(in01(c.data[i])); } }
    fn hsl_to_rgb_gray() { let h = Hsl { data: [unit(), 0.0, unit(), unit()] }; let c = h.to_rgb(); for i in 0..3 { ensure!(near(c.data[i], h.data[2], 1e-6)); } }
    fn hsv_to_rgb_gray() { let h = Hsv { data: [unit(), 0.0, unit(), unit()] }; let c = h.to_rgb(); for i in 0..3 { ensure!(near(c.data[i], h.data[2], 1e-6)); } }
}
