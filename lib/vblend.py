"""Contracts of the blend operations (C14), over the reals."""
from weave import Fn, Unit
import vcol
from vcol import RGB, SRGB, HSL, LAB, MOD

BL = "d10-ops/src/blend.rs"
MIX = r'''
/// interpolation from a to b
pub open spec fn mix(a: real, b: real, i: real) -> real { a * (1real - i) + b * i }
pub proof fn mix_range(a: real, b: real, i: real) requires unit(i), unit(a), unit(b) ensures unit(mix(a, b, i)) {
    assert(0real <= a * (1real - i) && a * (1real - i) <= 1real - i) by (nonlinear_arith) requires unit(i), unit(a);
    assert(0real <= b * i && b * i <= i) by (nonlinear_arith) requires unit(i), unit(b);
}
pub proof fn mix_ends(a: real, b: real, i: real) ensures i == 0real ==> mix(a, b, i) == a, i == 1real ==> mix(a, b, i) == b {
    assert(i == 0real ==> a * (1real - i) == a && b * i == 0real) by (nonlinear_arith);
    assert(i == 1real ==> a * (1real - i) == 0real && b * i == b) by (nonlinear_arith);
}
/// the weight of a blend: the intensity times the alpha of the second colour
pub open spec fn wt(i: real, c: [f32; 4]) -> real { i * ch(c, 3) }
pub proof fn wt_ends(i: real, c: [f32; 4]) ensures i == 0real || ch(c, 3) == 0real ==> wt(i, c) == 0real, i == 1real && ch(c, 3) == 1real ==> wt(i, c) == 1real {
    let a = ch(c, 3); assert(i == 0real || a == 0real ==> i * a == 0real) by (nonlinear_arith); assert(i == 1real && a == 1real ==> i * a == 1real) by (nonlinear_arith);
}
'''
OKC = ["rgb01(@p0.data) && unit(ch(@p0.data, 3))", "rgb01(@p1.data) && unit(ch(@p1.data, 3))", "unit(@p2.r())"]
A, B = "ch(@p0.data, %d)", "ch(@p1.data, %d)"
W = "wt(@p2.r(), @p1.data)"
OPERATION = {"addition": "{a} + {b}", "subtract": "{a} - {b}", "darken": "(if {a} <= {b} {{ {a} }} else {{ {b} }})", "lighten": "(if {a} >= {b} {{ {a} }} else {{ {b} }})"}


def channel_fns():
    f = [Fn(BL, "apply_intensity", ens=["r.r() == mix(@p0.r(), @p1.r(), @p2.r())"])]
    hint = lambda op: "proof { wt_ends(@p2.r(), @p1.data); " + "".join("mix_ends(%s, %s, %s); " % (A % k, op(k), W) for k in range(3)) + "}"
    for n, t in OPERATION.items():
        op = lambda k: t.format(a=A % k, b=B % k)
        f.append(Fn(BL, "blend_" + n, req=OKC, inline=(("blend_color", ((BL, "blend_color"), 3)),), entry=hint(op),
                    ens=["ch(r.data, %d) == c01(mix(%s, %s, %s))" % (k, A % k, op(k), W) for k in range(3)] + ["ch(r.data, 3) == ch(@p1.data, 3)", "rgb01(r.data)",
                         "@p2.r() == 0real || ch(@p1.data, 3) == 0real ==> same3(r.data, @p0.data)"]))
    f.append(Fn(RGB, "alpha_blend", "Rgb", ens=["ch(r.data, %d) == c01(ch(@p1.data, %d) * ch(@p1.data, 3) + (1real - ch(@p1.data, 3)) * ch(self.data, %d))" % (k, k, k) for k in range(3)] +
                ["ch(r.data, 3) == c01(if ch(self.data, 3) + ch(@p1.data, 3) < 1real { ch(self.data, 3) + ch(@p1.data, 3) } else { 1real })"]))
    f.append(Fn(BL, "blend_normal", req=OKC, ens=["ch(r.data, %d) == mix(%s, %s, %s)" % (k, A % k, B % k, W) for k in range(3)] + ["rgb01(r.data)", "unit(ch(r.data, 3))",
                "@p2.r() == 0real || ch(@p1.data, 3) == 0real ==> same3(r.data, @p0.data) && ch(r.data, 3) == ch(@p0.data, 3)", "@p2.r() == 1real && ch(@p1.data, 3) == 1real ==> same3(r.data, @p1.data) && ch(r.data, 3) == 1real"],
                entry=hint(lambda k: B % k)[:-1] + "let (gi, ga) = (@p2.r(), ch(@p1.data, 3)); assert(unit(gi * ga)) by (nonlinear_arith) requires unit(gi), unit(ga); assert(ga * gi == gi * ga) by (nonlinear_arith); " +
                "".join("mix_range(%s, %s, %s); comm(%s, gi * ga); comm(%s, 1real - gi * ga); " % (A % k, B % k, W, B % k, A % k) for k in range(3)) + "}"))
    return f


SAME3 = '''
pub open spec fn same3(a: [f32; 4], b: [f32; 4]) -> bool { ch(a, 0) == ch(b, 0) && ch(a, 1) == ch(b, 1) && ch(a, 2) == ch(b, 2) }
pub proof fn comm(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
'''


def rgbacc():
    return [Fn(RGB, "alpha", "Rgb", trait="Color", ens=["r == self.data@[3]"]), Fn(RGB, "with_alpha", "Rgb", trait="Color", ens=["r.data@ =~= self.data@.update(3, @p1)"])]


def unit_channels():
    yield Unit("c14a", lambda: vcol.GAM0 + vcol.TYPES + MIX + SAME3, real=True).add(*vcol.gamma_fns()[:1]).add(*vcol.srgb_fns()[:1]).add(*rgbacc()).add(*channel_fns())


AI = Fn(BL, "apply_intensity", ens=["r.r() == mix(@p0.r(), @p1.r(), @p2.r())", "unit(@p0.r()) && unit(@p1.r()) && unit(@p2.r()) ==> unit(r.r())", "@p2.r() == 0real ==> r.r() == @p0.r()"],
        entry="proof { mix_ends(@p0.r(), @p1.r(), @p2.r()); if unit(@p0.r()) && unit(@p1.r()) && unit(@p2.r()) { mix_range(@p0.r(), @p1.r(), @p2.r()); } }")


def unit_hsl():
    import vadj
    hs = [f for f in vcol.hs_fns() if "hsv" not in f.name and f.file != vcol.HSV]
    yield Unit("c14b", lambda: vcol.GAM0 + vcol.TYPES + vcol.HS + MIX + SAME3 + vadj.HSLB + vcol.const_fn(MOD, "EPSILON"), real=True).add(*vcol.gamma_fns()[:1]).add(*vcol.srgb_fns()[:1]).add(*vcol.srgb_fns()[2:3]).add(*hs).add(
        Fn(HSL, "with_lightness", "Hsl", ens=["r.data@ == self.data@.update(2, @p1)"]), AI, *[Fn(BL, "blend_hsl_" + n, req=OKC, ens=["rgb01(r.data)", "@p2.r() == 0real ==> near3(r.data, @p0.data, eps()) && ch(r.data, 3) == ch(@p0.data, 3)"],
                entry="proof { hsl_near(@p0.data); }") for n in ("darken", "lighten")])


LCHB = r'''
pub open spec fn is_lch<I: Illuminant, O: Observer>(d: [f32; 4], o: [f32; 4]) -> bool {
    ch(o, 0) == lab3::<I, O>(d, 0) && polar(lab3::<I, O>(d, 1), lab3::<I, O>(d, 2), ch(o, 1), ch(o, 2)) && 0real - PI_ < ch(o, 2) < PI_
}
pub open spec fn lch_rgb<I: Illuminant, O: Observer>(p: [f32; 4], k: int) -> real { c01(s_XYZ_TO_RGB(lchx2::<I, O>(p, 0), lchx2::<I, O>(p, 1), lchx2::<I, O>(p, 2), k)) }
pub proof fn lch_near(d: [f32; 4]) requires rgb01(d)
    ensures forall|o: [f32; 4], p: [f32; 4], k: int| #![trigger is_lch::<D65, O2>(d, o), lch_rgb::<D65, O2>(p, k)] is_lch::<D65, O2>(d, o) && same3(p, o) && 0 <= k < 3 ==> near(lch_rgb::<D65, O2>(p, k), ch(d, k), 1real / 100000real)
{
    xyz_pos(d);
    let (x, y, z) = (xyz3(d, 0), xyz3(d, 1), xyz3(d, 2));
    let (l, a, b) = (lab3::<D65, O2>(d, 0), lab3::<D65, O2>(d, 1), lab3::<D65, O2>(d, 2));
    lab_back::<D65, O2>(x, y, z, l, a, b);
    let (gx, gy, gz) = (labx::<D65, O2>(l, a, b, 0), labx::<D65, O2>(l, a, b, 1), labx::<D65, O2>(l, a, b, 2));
    let (gl, ga, gb) = (slab::<D65, O2>(gx, gy, gz, 0), slab::<D65, O2>(gx, gy, gz, 1), slab::<D65, O2>(gx, gy, gz, 2));
    lab_back::<D65, O2>(gx, gy, gz, gl, ga, gb);
    xyz_back(d, labx::<D65, O2>(gl, ga, gb, 0), labx::<D65, O2>(gl, ga, gb, 1), labx::<D65, O2>(gl, ga, gb, 2));
}
'''


def unit_lch():
    import vreal
    def conv():
        out = []
        for f in vcol.conv_fns():
            if f.name in ("to_yuv",) or f.file == vcol.YUV: continue
            if f.name == "to_lch": f.ens = (*f.ens, "is_lch::<I, O>(self.data, r.data)")
            if f.name == "to_rgb" and f.owner == "Lch": f.ens = (*f.ens, *["ch(r.data, %d) == lch_rgb::<I, O>(self.data, %d)" % (k, k) for k in range(3)])
            out.append(f)
        return out
    lch = [Fn(LAB, "with_" + n, "Lch", ens=["r.data@ =~= self.data@.update(%d, @p1)" % i]) for i, n in enumerate("lch")]
    ops = [Fn(BL, "blend_lch_" + n, req=OKC, ens=["@p2.r() == 0real ==> near3(r.data, @p0.data, 1real / 100000real) && ch(r.data, 3) == ch(@p0.data, 3)"],
              entry="proof { lch_near(@p0.data); }") for n in ("darken", "lighten", "hue", "saturation", "color")]
    yield Unit("c14c", lambda: vcol.lab_prelude() + vcol.TH13P + MIX + SAME3 + LCHB.replace("PI_", vreal.PI), real=True).add(*vcol.gamma_fns()).add(*vcol.srgb_fns()).add(*conv()).add(*lch).add(AI, *ops)
