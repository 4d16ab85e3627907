"""Contracts of the constructors and adjustments of RGB colours (C10), over the reals."""
from weave import Fn, Unit
import vcol
from vcol import RGB, SRGB, HSL, MOD

ADJ = r'''
pub proof fn pow1(x: real) requires x >= 0real ensures rpow(x, 1real) == x { pow_nat(x, 1); assert(1nat as real == 1real); reveal_with_fuel(npow, 3); }
pub proof fn times0(a: real, b: real) ensures a == 0real || b == 0real ==> a * b == 0real { assert(a == 0real || b == 0real ==> a * b == 0real) by (nonlinear_arith); }
pub proof fn times1(a: real, b: real) ensures b == 1real ==> a * b == a, a == 1real ==> a * b == b { assert(b == 1real ==> a * b == a) by (nonlinear_arith); assert(a == 1real ==> a * b == b) by (nonlinear_arith); }
pub proof fn pow1s() ensures forall|x: real, y: real| #![trigger rpow(x, y)] x >= 0real && y == 1real ==> rpow(x, y) == x { assert forall|x: real, y: real| #![trigger rpow(x, y)] x >= 0real && y == 1real implies rpow(x, y) == x by { pow1(x); } }
pub proof fn pow_unit() ensures forall|x: real, y: real| #![trigger rpow(x, y)] unit(x) && y > 0real ==> unit(rpow(x, y)) {
    assert forall|x: real, y: real| #![trigger rpow(x, y)] unit(x) && y > 0real implies unit(rpow(x, y)) by {
        let p = rpow(1real, y); pow_mul(1real, 1real, y); pow_pos(0real, y); pow_mono(0real, 1real, y);
        assert(1real * 1real == 1real); assert(p == 1real) by (nonlinear_arith) requires p == p * p, p > 0real;
        pow_pos(x, y); pow_le(x, 1real, y);
    }
}
/// in range, alpha kept
pub open spec fn okc(r: [f32; 4], d: [f32; 4]) -> bool { rgb01(r) }
pub open spec fn same3(a: [f32; 4], b: [f32; 4]) -> bool { ch(a, 0) == ch(b, 0) && ch(a, 1) == ch(b, 1) && ch(a, 2) == ch(b, 2) }
'''
D = "self.data"
CH = ["ch(self.data, %d)" % k for k in range(3)]
EACH = lambda s: "".join(s.format(c) for c in CH)
MC = dict(inline=((".map_channels", ((RGB, "map_channels", "Rgb"), 0)),))
NEAR = "near3(r.data, self.data, eps())"
ALPHA = "r.data@[3] == self.data@[3]"


def adj(name, req=(), ens=(), entry="", **kw):
    return Fn(RGB, name, "Rgb", req=["rgb01(self.data)", *req], ens=["rgb01(r.data)", *ens], entry="proof { %s }" % entry if entry else "", **kw)


def channel_fns():
    same = lambda c: ["%s ==> same3(r.data, self.data)" % c, ALPHA]
    return [
        adj("with_gamma", ["@p1.r() > 0real"], same("@p1.r() == 1real"), EACH("pow1({0}); "), signed=True, consts=("EPSILON",), **MC),
        adj("with_gamma_opt", ["@p1.r() > 0real"], same("@p1.r() == 1real"), EACH("pow1(c01({0} * 2real)); pow1(c01(({0} - 1real / 2real) * 2real)); ") + "times1(1real, @p1.r());", signed=True, consts=("EPSILON",), **MC),
        adj("with_level", ["@p3.r() > 0real"], same("@p1.r() == 0real && @p2.r() == 1real && @p3.r() == 1real"), EACH("pow1({0}); "), signed=True, consts=("EPSILON",), **MC),
        adj("with_brightness", [], same("@p1.r() == 0real"), **MC),
        adj("with_contrast", [], same("@p1.r() == 1real"), EACH("times1({0} - 1real / 2real, @p1.r()); "), **MC),
        adj("with_brightness_contrast", [], same("@p1.r() == 0real && @p2.r() == 1real"), EACH("times1({0} + @p1.r() - 1real / 2real, @p2.r()); "), **MC),
        adj("invert", [], ["forall|k: int| 0 <= k < 3 ==> #[trigger] ch(r.data, k) == 1real - ch(self.data, k)", ALPHA]),
        adj("with_sepia", [], ["ch(r.data, 3) == c01(ch(self.data, 3))"]),
        *[Fn(f, "new", t, ens=["ch(r.data, 0) == c01(@p0.r()) && ch(r.data, 1) == c01(@p1.r()) && ch(r.data, 2) == c01(@p2.r())", "ch(r.data, 3) == 1real"]) for f, t in ((RGB, "Rgb"), (SRGB, "Srgb"))],
        Fn(None, "invert_twice", src="fn invert_twice(c: Rgb) -> Rgb { let i = c.invert(); i.invert() }", req=["rgb01(@p0.data)"], ens=["same3(r.data, @p0.data)", "r.data@[3] == @p0.data@[3]"]),
    ]


def unit_channels():
    yield Unit("c10a", lambda: vcol.POW + vcol.GAM0 + vcol.TYPES + vcol.HS + ADJ + vcol.const_fn(MOD, "EPSILON"), real=True).add(*vcol.gamma_fns()[:1]).add(*vcol.srgb_fns()[:2]).add(
        Fn(RGB, "alpha", "Rgb", trait="Color", ens=["r == self.data@[3]"])).add(*[Fn(RGB, n, "Rgb", ens=["r == self.data@[%d]" % i]) for i, n in enumerate(("red", "green", "blue"))]).add(*channel_fns())


HSLB = r"""
pub open spec fn whole(x: real) -> bool { x == x.floor() as real }
/// the same hue, one turn apart
pub open spec fn turned(p: [f32; 4], o: [f32; 4]) -> bool { ch(p, 0) == 0real && ch(o, 0) == 1real && ch(p, 1) == ch(o, 1) && ch(p, 2) == ch(o, 2) }
/// the colour of any values equal to those of the HSL form of d is d
pub proof fn hsl_near(d: [f32; 4]) requires rgb01(d)
    ensures forall|o: [f32; 4], p: [f32; 4], k: int| #![trigger is_hsl(d, o), of_hsl(p, k)] is_hsl(d, o) && (same3(p, o) || turned(p, o)) && 0 <= k < 3 ==> near(of_hsl(p, k), ch(d, k), eps())
{ assert forall|o: [f32; 4], p: [f32; 4], k: int| #![trigger is_hsl(d, o), of_hsl(p, k)] is_hsl(d, o) && (same3(p, o) || turned(p, o)) && 0 <= k < 3 implies near(of_hsl(p, k), ch(d, k), eps()) by { hsl_back(d, o); assert(near(of_hsl(o, k), ch(d, k), eps())); if turned(p, o) { assert(tri(0real + off(k)) == tri(1real + off(k))); } assert(of_hsl(p, k) == of_hsl(o, k)); } }
"""


def hsl_fns():
    at = lambda c: ["%s ==> %s" % (c, NEAR), "ch(r.data, 3) == c01(ch(self.data, 3))"]
    back = "hsl_near(self.data);"
    h = lambda n, req, c, **kw: adj(n, req, at(c), back, signed=True, **kw)
    return [
        h("with_saturation", [], "@p1.r() == 1real"),
        h("stretch_saturation", [], "@p1.r() == 1real"),
        h("with_lightness", [], "@p1.r() == 1real"),
        h("modulate", [], "@p1.r() == 1real && @p2.r() == 1real && @p3.r() == 1real"),
        h("with_hue_rotate", [], "whole(@p1.r() / 360real)"),
        h("with_vibrance", [], "@p1.r() == 0real"),
        Fn(RGB, "with_gamma_saturation", "Rgb", req=["rgb01(self.data)", "@p1.r() > 0real"], ens=["rgb01(r.data)", *at("@p1.r() == 1real")], entry="proof { hsl_near(self.data); pow1s(); pow_unit(); }", signed=True),
        adj("to_gray_with_intensity", [], ["ch(r.data, 0) == ch(r.data, 1) && ch(r.data, 1) == ch(r.data, 2)", ALPHA]),
    ]


INT = '''
pub enum Intensity { Rec601Luma, Rec709Luma, Average, Brightness, Lightness, Saturation, Red, Green, Blue }
pub use Intensity::*;
'''
GRAY = ["ch(r.data, 0) == ch(r.data, 1) && ch(r.data, 1) == ch(r.data, 2)", ALPHA]


def unit_hsl():
    hs = [f for f in vcol.hs_fns() if "hsv" not in f.name and f.file != vcol.HSV]
    yield Unit("c10b", lambda: vcol.POW + vcol.GAM0 + vcol.TYPES + vcol.HS + ADJ + HSLB + vcol.const_fn(MOD, "EPSILON") + INT, real=True).add(*vcol.gamma_fns()[:1]).add(*vcol.srgb_fns()[:1]).add(*vcol.srgb_fns()[2:3]).add(*hs, *[Fn(HSL, "with_" + n, "Hsl", ens=["r.data@ == self.data@.update(%d, @p1)" % i]) for i, n in enumerate(("hue", "saturation", "lightness"))], Fn(HSL, "new_with_alpha", "Hsl", ens=["r.data@ =~= seq![@p0, @p1, @p2, @p3]"])).add(*hsl_fns())
