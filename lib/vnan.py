"""Contracts of the tonal and colour filters (C22), over the reals: every division, root and power is defined, and sizes are kept."""
from weave import Fn, Loop, Unit, callee
import re
import rast, vadj, vcol, vcore, vfilt, vops
from vcol import RGB, SRGB, HSL, HSV, MOD
from vcore import PB, prelude, SPEC_CALLS

OPS = "d10-ops/src/"
SAT, LIG, STR, BAL, TMP, EQU, EDG, DRW = (OPS + x + ".rs" for x in ("saturation", "lightness", "stretch_contrast", "balance_channels", "temperature", "equalize", "edge_detection", "drawing"))
MAPC = ((".map_colors", ((PB, "map_colors", "PixelBuffer"), 0)), (".mod_colors", ((PB, "mod_colors", "PixelBuffer"), 0)))
TYP = vcol.TYPES[vcol.TYPES.index("/// channels k of a colour"):]

NAN = r'''
/// every pixel's colour channels are in [0, 1]
pub open spec fn b01(b: PixelBuffer<Rgb>) -> bool { b.wf() && b.w() > 0 && forall|k: int| 0 <= k < b.px().len() ==> rgb01((#[trigger] b.px()[k]).data) }
pub proof fn pixels(b: &PixelBuffer<Rgb>) requires b01(*b) ensures 0 < b.px().len() <= 1073741823 { dims_bound(b.w(), b.h()); no_pixels_hint(b.w(), b.h()); }
pub proof fn pow01() ensures forall|x: real, y: real| #![trigger rpow(x, y)] unit(x) && y > 0real ==> unit(rpow(x, y)) {
    assert forall|x: real, y: real| #![trigger rpow(x, y)] unit(x) && y > 0real implies unit(rpow(x, y)) by {
        let p = rpow(1real, y); pow_mul(1real, 1real, y); pow_pos(0real, y); pow_mono(0real, 1real, y);
        assert(1real * 1real == 1real); assert(p == 1real) by (nonlinear_arith) requires p == p * p, p > 0real;
        pow_pos(x, y); pow_le(x, 1real, y);
    }
}
'''
SIZE = ["r.wf() && r.w() == @p0.w() && r.h() == @p0.h()", "b01(r)"]
REQ = ["b01(*@p0)"]
ENT = "proof { pixels(@p0); }"
EACH = lambda i, extra=(): Loop(["_n{0} == @p0.px().len()".format(i), "0 <= _i{0} <= _n{0}".format(i), *extra])
MAPL = lambda i, ty="Rgb", inv=(): Loop(["_n{0} == @p0.px().len()".format(i), "0 <= _i{0} <= _n{0}".format(i), "_v{0}@.len() == _i{0}".format(i), "forall|k: int| 0 <= k < _i{0} ==> rgb01((#[trigger] _v{0}@[k]).data)".format(i), *inv], ty=ty)


def colours(hsl=True, hsv=True):
    hs = [f for f in vcol.hs_fns() if f.src is None and (hsl or f.file != HSL and f.name != "to_hsl") and (hsv or f.file != HSV and f.name != "to_hsv")]
    return [*vcol.gamma_fns()[:1], *vcol.srgb_fns()[:1], vcol.srgb_fns()[2], *hs]


def pre(*more):
    return lambda: prelude("A") + SPEC_CALLS + vcol.POW + vcol.GAM0 + TYP + vcol.HS + vcol.const_fn(MOD, "EPSILON") + NAN + "".join(m() if callable(m) else m for m in more)


def pre_lab(*more):
    """with the XYZ, Lab and LCh conversions as well"""
    return lambda: prelude("A").replace(vcore.LABS, "") + SPEC_CALLS + vcol.lab_prelude().replace(vcol.TYPES, TYP) + vcol.TH13P + vcol.HS + vcol.const_fn(MOD, "EPSILON") + NAN + "".join(m() if callable(m) else m for m in more)


def lab_colours():
    have = vcol.gamma_fns() + vcol.srgb_fns() + vcol.conv_fns()
    names = {(f.name, f.owner, f.file) for f in have}
    return have + [f for f in vcol.hs_fns() if f.src is None and (f.name, f.owner, f.file) not in names]


# ------------------------------------------------------------------ saturation
SATL = r'''
pub enum SaturationMode { Hsl, Hsv, Lch }
impl Copy for SaturationMode {} impl Clone for SaturationMode { fn clone(&self) -> (r: Self) { *self } }
'''


def sat_fns():
    g = "r.r() > 0real"
    conv = ["rgb01(r.data)"]
    one = lambda n: Fn(SAT, n, req=["rgb01(@p0.data)"], ens=conv, entry="proof { pow01(); }", signed=True)
    return [Fn(SAT, "get_gamma_pow", ens=[g], signed=True),
            Fn(SAT, "avg_saturation", req=REQ, entry=ENT, loops=[EACH(0)], tags=["for"], ens=["true"]),
            one("saturate_hsl"), one("saturate_hsv"), one("saturate_lch"),
            Fn(SAT, "optimize_saturation", req=REQ, ens=SIZE, entry=ENT, inline=MAPC, tags=["collect"], loops=[MAPL(0)])]


def unit_sat():
    yield Unit("c22_sat", pre_lab(SATL), real=True).add(*vcore.getters(), *lab_colours(), *sat_fns())


# ------------------------------------------------------------------ lightness, contrast
LIGL = r'''
pub proof fn small(x: real, f: real) requires 0real - 1real / 2real <= x <= 1real / 2real, 0real - 2real < f < 2real ensures 0real - 1real < x * f < 1real { assert(0real - 1real < x * f && x * f < 1real) by (nonlinear_arith) requires 0real - 1real / 2real <= x <= 1real / 2real, 0real - 2real < f < 2real; }
'''


def adj(name):
    return next(f for f in vadj.channel_fns() if f.name == name)


def light_fns():
    return [adj("with_gamma"), Fn(LIG, "optimize_lightness", req=REQ + ["0real - 2real < @p1.r() < 2real"], ens=SIZE, entry=ENT, inline=MAPC, tags=["for", "collect"], signed=True,
                                  loops=[Loop(["_n0 == @p0.px().len()", "0 <= _i0 <= _n0", "0real <= @m0.r() <= _i0 as real"], after="let n_ = @p0.px().len() as int as real; ratio01(@m0.r(), n_); small(@m0.r() / n_ - 1real / 2real, @p1.r());"), MAPL(1)])]


def unit_light():
    yield Unit("c22_light", pre(vadj.ADJ, LIGL), real=True).add(*vcore.getters(), *colours(hsv=False), *light_fns())


def mm(name, file):
    rev = name == "get_max_value"
    return Fn(file, name, ens=["unit(r.r())"], loops=[Loop(["_n0 == 256", "unit(@m0.r())"])], tags=["for"], signed=True)


def stretch_fns():
    gv = Fn(STR, "get_color_value", req=["rgb01(@p0.data)"], ens=["true"])
    gvs = Fn(STR, "get_color_values", req=REQ, ens=["true"], entry=ENT, loops=[EACH(0)], tags=["for"])
    st = Fn(STR, "stretch_contrast", req=REQ, ens=SIZE, entry=ENT, inline=MAPC, tags=["collect"], loops=[MAPL(0)])
    return [gv, gvs, mm("get_min_value", STR), mm("get_max_value", STR), adj("with_level"), st]


def unit_stretch():
    yield Unit("c22_stretch", pre(vadj.ADJ, vadj.INT), real=True).add(*vcore.getters(), *colours(hsv=False), next(f for f in vadj.hsl_fns() if f.name == "to_gray_with_intensity"), *stretch_fns())


# ------------------------------------------------------------------ colour temperature
def temp_table():
    c = rast.const(TMP, "TEMPERATURE_TABLE")
    e = rast.strip(c["e"])
    if e["k"] != "array" or any(rast.strip(x)["k"] != "tuple" or len(rast.strip(x)["e"]) != 2 for x in e["e"]): raise rast.Unsupported("TEMPERATURE_TABLE")
    n = len(e["e"])
    row = lambda x: "(%s)" % ", ".join("fl(Ghost(%s))" % vcol.rq(vcol.val(v)) for v in rast.strip(x)["e"])
    return "pub fn TEMPERATURE_TABLE() -> (r: [(Fl, Fl); %d])\n    ensures forall|i: int| 0 <= i < %d ==> (#[trigger] r@[i]).0.r() > 0real && r@[i].1.r() > 0real\n{ [%s] }\n" % (n, n, ", ".join(row(x) for x in e["e"]))


XYZL = r'''
pub open spec fn dot3(a: real, b: real, c: real, p: real, q: real, r: real) -> real { a * p + b * q + c * r }
'''


def temp_fns():
    tint = lambda n: Fn(TMP, n, req=REQ, ens=["r.r() >= 0real"], entry=ENT, signed=True, loops=[EACH(0)], tags=["for"])
    data = Fn(RGB, "data", "Rgb", trait="Color", ens=["r@ == self.data@"])
    x2r = [f for f in vcol.conv_fns() if f.owner == "Xyz" or f.name == "apply_matrix_clamped" or f.name == "apply_matrix"]
    b = "@m0.wf() && @m0.w() == @p0.w() && @m0.h() == @p0.h() && b01(@m0)"
    modl = lambda i: Loop(["_n{0} == @m0.px().len()".format(i), "0 <= _i{0} <= _n{0}".format(i), b])
    return [Fn(vcol.XYZ, "new", "Xyz", ens=["true"]), *x2r, data, *[Fn(RGB, "with_" + n, "Rgb", ens=["r.data@ =~= self.data@.update(%d, @p1)" % i]) for n, i in (("red", 0), ("blue", 2))],
            Fn(TMP, "convert_kelvin_to_rgb", consts=("TEMPERATURE_TABLE",), signed=True, ens=["true"]),
            Fn(TMP, "calculate_factors", ens=["true"], signed=True),
            tint("get_green_tint_pow"), tint("get_red_tint_pow"), tint("get_blue_tint_pow"),
            Fn(TMP, "change_color_temperature", req=REQ, ens=SIZE, entry="proof { pixels(@p0); pow_unit(); }", inline=MAPC, tags=["collect", "collect", "for", "for"], loops=[MAPL(0), MAPL(1), modl(2), modl(3)]),
            Fn(TMP, "optimize_color_temperature", req=REQ, ens=SIZE, entry=ENT, tags=["for"], loops=[EACH(0)])]


def unit_temp():
    cols = [f for f in colours(False, False) if f.owner == "Rgb" and f.name in ("red", "green", "blue", "alpha", "new_with_alpha") or f.name == "clamp"]
    yield Unit("c22_temp", pre(vadj.ADJ, XYZL, vcol.LG, lambda: vcol.matrix(vcol.XYZ, "XYZ_TO_RGB"), temp_table), real=True).add(*vcore.getters(), *cols, *temp_fns())


# ------------------------------------------------------------------ channel balance
BALL = r'''
/// colours as four channels (the conversions are those of C12, C13 and C15; to_rgb clamps)
pub trait Channels: Color {
    fn data(&self) -> (r: &[f32]) ensures r@.len() == 4;
    fn data_mut(&mut self) -> (r: &mut [f32]) ensures r@.len() == 4;
    proof fn clamps() ensures forall|c: Self| rgb01((#[trigger] c.s_to_rgb()).data);
    fn from_rgb(c: Rgb) -> (r: Self);
}
impl Rgb { pub fn into<C: Channels>(self) -> (r: C) { C::from_rgb(self) } }
pub enum BalanceMode { Rgb, Srgb, Hsv, Hsl, Lch }
impl Copy for BalanceMode {} impl Clone for BalanceMode { fn clone(&self) -> (r: Self) { *self } }
''' 
CHAN = "".join(r'''
impl Channels for %s {
    #[verifier::external_body] fn data(&self) -> (r: &[f32]) { unimplemented!() }
    #[verifier::external_body] fn data_mut(&mut self) -> (r: &mut [f32]) { unimplemented!() }
    #[verifier::external_body] proof fn clamps() { }
    #[verifier::external_body] fn from_rgb(c: Rgb) -> (r: Self) { unimplemented!() }
}
''' % t for t in ("Rgb", "Srgb", "Hsl", "Hsv", "Lch<D65, O2>"))


def default_lch(b):
    """the default parameters of Lch, spelled out"""
    return rast.rewrite(b, lambda n: dict(n, p=re.sub(r"\bLch\b(?!\s*(<|::\s*<))", "Lch<D65, O2>", n["p"])) if n.get("k") == "path" and "<" in n["p"] else n)


def bal_fns():
    gen = dict(generics=["C: Channels", "const START: usize", "const NUM_CHANNELS: usize"])
    n = ["START + NUM_CHANNELS <= 4"]
    return [mm("get_min_value", BAL), mm("get_max_value", BAL),
            Fn(BAL, "level_channel", ens=["true"], signed=True),
            Fn(BAL, "get_color_values", req=REQ + n, ens=["true"], entry=ENT, tags=["for", "for"], loops=[EACH(0), Loop(["_n1 == NUM_CHANNELS", "0 <= _i1 <= _n1"])], **gen),
            Fn(BAL, "balance_buffer", req=REQ + n, ens=SIZE, entry="proof { pixels(@p0); C::clamps(); }", tags=["for", "collect", "for"], inline=MAPC, loops=[Loop(["_n0 == NUM_CHANNELS", "0 <= _i0 <= _n0"]), MAPL(1), Loop(["_n2 == NUM_CHANNELS", "0 <= _i2 <= _n2"])], **gen),
            Fn(BAL, "balance", req=REQ, ens=SIZE, subst=(default_lch,))]


def unit_bal():
    yield Unit("c22_bal", pre(BALL, lambda: CHAN), real=True).add(*vcore.getters(), *bal_fns())


# ------------------------------------------------------------------ equalize
EQUL = r'''
pub enum EqualizeMode { Rgb, Srgb, Saturation, Lightness, SaturationLightness }
impl Copy for EqualizeMode {} impl Clone for EqualizeMode { fn clone(&self) -> (r: Self) { *self } }
'''


def total_hs():
    """HSL and HSV to RGB for any channels: nothing undefined, result in range"""
    return [Fn(HSL, "to_rgb", "Hsl", trait="Color", nested="hue2rgb", ens=["true"]), Fn(HSL, "to_rgb", "Hsl", trait="Color", ens=["rgb01(r.data)"]), Fn(HSV, "to_rgb", "Hsv", trait="Color", ens=["unit(ch(self.data, 2)) ==> rgb01(r.data)"])]


def accessors(*spec):
    return [Fn(f, n, t, ens=["r == self.data@[%d]" % i]) for f, t, ns in spec for i, n in enumerate(ns)] + [Fn(f, "alpha", t, trait="Color", ens=["r == self.data@[3]"]) for f, t, _ in spec]


RGBA, SRGBA, HSLA, HSVA = (RGB, "Rgb", ("red", "green", "blue")), (SRGB, "Srgb", ("red", "green", "blue")), (HSL, "Hsl", ("hue", "saturation", "lightness")), (HSV, "Hsv", ("hue", "saturation", "value"))


def equ_fns():
    n = lambda i: Loop(["_n{0} == NUM_CHANNELS".format(i), "0 <= _i{0} <= _n{0}".format(i)])
    b = lambda i: Loop(["_n{0} == 256".format(i), "0 <= _i{0} <= _n{0}".format(i)])
    ch = Fn(EQU, "channel_histogram", generics=["C: Channels", "const NUM_CHANNELS: usize"], req=["@p0.wf()", "@p0.w() > 0", "@p1 + NUM_CHANNELS <= 4"], ens=["true"], signed=True,
            entry="proof { dims_bound(@p0.w(), @p0.h()); no_pixels_hint(@p0.w(), @p0.h()); }", tags=["for"] * 9, loops=[n(0), EACH(1), n(2), b(3), n(4), b(5), n(6), b(7), b(8)])
    one = lambda m: Fn(EQU, "equalize_" + m, req=REQ, ens=SIZE, entry=ENT, inline=MAPC, tags=["collect"], loops=[MAPL(0)])
    return [ch, Fn(EQU, "pick_value", ens=["true"]), *map(one, ("rgb", "srgb", "saturation", "lightness", "saturation_lightness")), Fn(EQU, "equalize", req=REQ, ens=SIZE)]


def unit_equ():
    new = [Fn(HSL, "new_with_alpha", "Hsl", ens=["r.data@ =~= seq![@p0, @p1, @p2, @p3]"])]
    yield Unit("c22_equ", pre(vcol.LG, BALL, lambda: CHAN, EQUL), real=True).add(*vcore.getters(), *[vcore.conv_fn(x) for x in ("srgb", "hsl")], *vcol.gamma_fns(), *[f for f in vcol.srgb_fns() if f.name != "to_srgb"], *accessors(RGBA, SRGBA, HSLA), *new, *total_hs()[:2], *equ_fns())


# ------------------------------------------------------------------ edge detection
EDGL = r'''
pub enum EdgeDetection { Sobel, Laplace }
pub proof fn sumsq(a: real, b: real) ensures a * a + b * b >= 0real { assert(a * a >= 0real) by (nonlinear_arith); assert(b * b >= 0real) by (nonlinear_arith); }
'''
CMP = OPS + "compose.rs"


def compose_inline(n, e="()"):
    """compose of n buffers, inlined down to the pixel loop"""
    return vops.INLINE_NEW + (("compose", ((CMP, "compose"), 2, {"C": "Rgb", "N": "%dusize" % n})), ("try_compose", ((CMP, "try_compose"), 2)))


WALPHA = Fn(RGB, "with_alpha", "Rgb", trait="Color", ens=["r.data@ =~= self.data@.update(3, @p1)"])


def comp_loops(n, k, res="", cell="", head=""):
    """loops number k .. k + 3 of an inlined compose of n buffers of the first parameter's size; cell: what every colour handed over satisfies, res: what every result satisfies"""
    mx = lambda i, w: Loop(["0 <= _i{0} <= _n{0} == {1}".format(i, n), "_m{0}.is_none() == (_i{0} == 0)".format(i), "_i%d > 0 ==> _m%d->Some_0 == @p0.%s()" % (i, i, w)])
    all_ = lambda v, m, p: ["forall|k: int| 0 <= k < %s ==> %s" % (m, p % ("(#[trigger] %s@[k])" % v))] if p else []
    return [mx(k, "w"), mx(k + 1, "h"),
            Loop(["_n%d == @p0.px().len()" % (k + 2), "_i{0} <= _n{0}".format(k + 2), "_e%d.is_none()" % (k + 2), "_v%d@.len() == _i%d" % (k + 2, k + 2), "@h_try_compose_0@.len() == %d" % n, *all_("_v%d" % (k + 2), "_i%d" % (k + 2), res)], head="ix_of(_i%d as int, @p0.w(), @p0.h()); %s" % (k + 2, head), ty="Rgb"),
            Loop(["_n%d == %d" % (k + 3, n), "0 <= _i{0} <= _n{0}".format(k + 3), "@h_try_compose_0@.len() == %d" % n, *all_("@h_try_compose_0", "_i%d" % (k + 3), cell)])]


def rgb_const(name):
    """a constant colour read from the source, as a function"""
    e = rast.strip(rast.const(RGB, name, "Rgb")["e"])
    if e["k"] != "struct" or len(e["f"]) != 1: raise rast.Unsupported("Rgb::" + name)
    import json
    v = rast.strip(e["f"][0][1] if isinstance(e["f"][0], list) else e["f"][0]["e"])
    n = [vcol.val(x) for x in v["e"]]
    return "impl Rgb { pub fn %s() -> (r: Rgb)\n    ensures %s\n{ Rgb { data: [%s] } } }\n" % (name, " && ".join("r.data@[%d].r() == %s" % (i, vcol.rq(x)) for i, x in enumerate(n)), ", ".join("fl(Ghost(%s))" % vcol.rq(x) for x in n))


def rgb_consts(b):
    return rast.rewrite(b, lambda n: rast.call(n["p"]) if n.get("k") == "path" and n["p"] in ("Rgb::BLACK", "Rgb::NONE") else n)


def edge_fns():
    ak = next(f for f in list(vops.unit_conv())[0].fns if f.name == "apply_kernel" and f.owner == "PixelBuffer")
    knew = [f for f in vfilt.knew() if f.owner == "Kernel"]
    ent = "broadcast use ix_div; proof { dims_bound(@p0.w(), @p0.h()); no_pixels_hint(@p0.w(), @p0.h()); ix_all(@p0.w(), @p0.h()); }"
    D = dict(req=["@p0.wf()", "@p0.w() > 0"], ens=["r.wf() && r.w() == @p0.w() && r.h() == @p0.h()"])
    clo = Fn(EDG, "edge_detection_sobel", clo=0, ctys=("u32", "u32", "[Rgb; 2]"), cret="Rgb", as_name="clo0_edge_detection_sobel", req=D["req"], ens=["true"], entry="proof { %s }" % "".join("sumsq(@p3@[0].data@[{0}].r(), @p3@[1].data@[{0}].r()); ".format(i) for i in range(3)))
    sob = Fn(EDG, "edge_detection_sobel", lift=(0,), subst=(rgb_consts,), entry=ent, inline=compose_inline(2), loops=comp_loops(2, 0), **D)
    return [callee(ak, ak.ens[:2]), *knew, clo, sob, Fn(EDG, "edge_detection_laplace", tags=["collect"], inline=MAPC, loops=[Loop(["_n0 == @p0.px().len()", "0 <= _i0 <= _n0", "_v0@.len() == _i0"], ty="Rgb")], **D), Fn(EDG, "edge_detection", **D)]


def unit_edge():
    rgb = [f for f in vadj.channel_fns() if f.name == "new" and f.owner == "Rgb"] + [f for f in colours(False, False) if f.owner == "Rgb" and f.name == "new_with_alpha" or f.name == "clamp"] + [WALPHA]
    yield Unit("c22_edge", pre(vops.COMPL + vops.KERL + vops.CONVL + EDGL, lambda: rgb_const("BLACK")), real=True).add(*vops.base("A"), *rgb, *accessors(RGBA), *edge_fns())


# ------------------------------------------------------------------ drawing
DRWL = r'''
pub enum DrawingMode { Gray, Colored, ReducedColors }
impl Copy for DrawingMode {} impl Clone for DrawingMode { fn clone(&self) -> (r: Self) { *self } }
pub open spec fn b3(b: PixelBuffer<Rgb>) -> bool { forall|i: int, j: int, c: int| #![trigger b.at(i, j).data@[c]] 0 <= i < b.w() && 0 <= j < b.h() && 0 <= c < 3 ==> 0real <= b.at(i, j).data@[c].r() <= 1real }
pub open spec fn b4(b: PixelBuffer<Rgb>) -> bool { forall|i: int, j: int, c: int| #![trigger b.at(i, j).data@[c]] 0 <= i < b.w() && 0 <= j < b.h() && 0 <= c < 4 ==> 0real <= b.at(i, j).data@[c].r() <= 1real }
pub proof fn unit_mul() ensures forall|a: real, b: real| #![trigger unit(a), unit(b)] unit(a) && unit(b) ==> 0real <= a * b <= 1real
{ assert forall|a: real, b: real| #![trigger unit(a), unit(b)] unit(a) && unit(b) implies 0real <= a * b <= 1real by { assert(0real <= a * b <= 1real) by (nonlinear_arith) requires 0real <= a <= 1real, 0real <= b <= 1real; } }
/// the two ways of saying that colour channels are in range agree
pub proof fn ranges() ensures forall|b: PixelBuffer<Rgb>| #![trigger b3(b)] #![trigger b01(b)] b.wf() && b.w() > 0 ==> (b01(b) <==> b3(b)), forall|b: PixelBuffer<Rgb>| #![trigger b4(b)] b4(b) ==> b3(b)
{
    broadcast use ix_div;
    assert forall|b: PixelBuffer<Rgb>| #![trigger b3(b)] #![trigger b01(b)] b.wf() && b.w() > 0 implies (b01(b) <==> b3(b)) by {
        no_pixels_hint(b.w(), b.h()); ix_all(b.w(), b.h());
        if b3(b) {
            assert forall|k: int| 0 <= k < b.px().len() implies rgb01((#[trigger] b.px()[k]).data) by {
                ix_of(k, b.w(), b.h());
                let p = b.at(k % b.w(), k / b.w());
                assert(0real <= b.at(k % b.w(), k / b.w()).data@[0].r() <= 1real && 0real <= b.at(k % b.w(), k / b.w()).data@[1].r() <= 1real && 0real <= b.at(k % b.w(), k / b.w()).data@[2].r() <= 1real);
            }
        }
        if b01(b) {
            assert forall|i: int, j: int, c: int| #![trigger b.at(i, j).data@[c]] 0 <= i < b.w() && 0 <= j < b.h() && 0 <= c < 3 implies 0real <= b.at(i, j).data@[c].r() <= 1real by {
                assert(rgb01(b.px()[ix(i, j, b.w())].data));
                assert(unit(ch(b.at(i, j).data, c)));
            }
        }
    }
}
'''


def drawing_fns():
    gb = callee(vfilt.blur_fns()[1], ["r.wf() && r.w() == @p0.w() && r.h() == @p0.h()", "b3(*@p0) ==> b3(r)"])
    us = callee(vfilt.unsharp_fn(), ["r.wf() && r.w() == @p0.w() && r.h() == @p0.h()", "b4(r)"])
    de = callee(vfilt.despeckle_fns()[1], ["r.wf() && r.w() == @p0.w() && r.h() == @p0.h()", "b4(*@p0) ==> b4(r)"])
    ent = "broadcast use ix_div; proof { pixels(@p0); dims_bound(@p0.w(), @p0.h()); no_pixels_hint(@p0.w(), @p0.h()); ix_all(@p0.w(), @p0.h()); ranges(); }"
    R = "rgb01(%s.data)"
    comp = lambda k: comp_loops(2, k, R, R)
    sk = [Loop(["_n0 == 3", "0 <= _i0 <= _n0", "@m0@.len() == @m1@.len()", "forall|k: int| 0 <= k < @m1@.len() ==> unit((#[trigger] @m1@[k]).r())"]),
          Loop(["_n1 == @m1@.len()", "0 <= _i1 <= _n1"])]
    two = ["rgb01(@p5@[0].data) && rgb01(@p5@[1].data)"]
    clo = Fn(DRW, "drawing", clo=3, ctys=("u32", "u32", "[Rgb; 2]"), cret="Rgb", as_name="clo3_drawing", req=two, ens=["rgb01(r.data)"], loops=sk)
    dr = Fn(DRW, "drawing", lift=(3,), subst=(rgb_consts,), req=REQ + ["@p1 <= 8191"], ens=SIZE, entry=ent, inline=MAPC + MCH + compose_inline(2), loops=[MAPL(0), MAPL(1), MAPL(2), *comp(3)])
    mc = Fn(DRW, "merge_color", subst=(rgb_consts,), req=["b01(@p0)", "b01(*@p1)", "@p0.w() == @p1.w() && @p0.h() == @p1.h()"], ens=SIZE, entry=ent.replace("pixels(@p0)", "pixels(&@p0)"), inline=compose_inline(2), loops=comp(0))
    lc = lambda i, tys, req: Fn(DRW, "merge_color_reduced", clo=i, ctys=tys, cret="Rgb", as_name="clo%d_merge_color_reduced" % i, req=[req], ens=["rgb01(r.data)"], entry="proof { unit_mul(); }", signed=True)
    cv = [lc(0, ("&Rgb",), "rgb01(@p1.data)")] + [lc(i, ("u32", "u32", "[Rgb; 2]"), "rgb01(@p3@[0].data) && rgb01(@p3@[1].data)") for i in (1, 2, 3)]
    mr = Fn(DRW, "merge_color_reduced", lift=(0, 1, 2, 3), subst=(rgb_consts,), req=["b01(@p0)", "b01(*@p1)", "@p0.w() == @p1.w() && @p0.h() == @p1.h()"], ens=SIZE, entry=ent.replace("pixels(@p0)", "pixels(&@p0)"), inline=MAPC + compose_inline(2), loops=[MAPL(0), *comp(1), *comp(5), *comp(9), MAPL(13)])
    return [gb, us, de, clo, dr, mc, *cv, mr]


MCH = ((".map_channels", ((RGB, "map_channels", "Rgb"), 0)),)


def unit_drawing():
    rgb = [f for f in vadj.channel_fns() if f.name == "new" and f.owner == "Rgb"] + [callee(f, f.ens[:1]) for f in vadj.channel_fns() + vadj.hsl_fns() if f.name in ("with_gamma", "with_contrast", "invert", "with_saturation", "with_vibrance", "to_gray_with_intensity")]
    acc = lambda f, t, ns: [Fn(f, "with_" + n, t, ens=["r.data@ == self.data@.update(%d, @p1)" % i]) for i, n in enumerate(ns)]
    new = [Fn(HSL, "new_with_alpha", "Hsl", ens=["r.data@ =~= seq![@p0, @p1, @p2, @p3]"])]
    cols = [f for f in colours() if f.owner in ("", "Rgb", "Color") and f.name not in ("red", "green", "blue", "alpha")]
    yield Unit("c22_drawing", pre(vadj.ADJ, vadj.INT, DRWL, vops.COMPL, lambda: rgb_const("NONE")), real=True).add(*vops.base("A"), *rgb, *cols, *accessors(RGBA, HSLA, HSVA), *acc(HSL, "Hsl", HSLA[2]), *acc(HSV, "Hsv", HSVA[2]), *total_hs(), *drawing_fns())
