"""Contracts of resize and free rotation (C09), over the reals."""
import rast
from weave import Fn, Loop, Unit, rel_item, items_subst
import vcore, vops
from vcore import PB, prelude, SPEC_CALLS
from vops import OPS, base, INLINE_NEW, CLMP, enum_variants

RS, RT, FI, RGB = OPS + "resize.rs", OPS + "rotate.rs", OPS + "filters.rs", "d10-core/src/color/rgb.rs"

GEOL = CLMP + r'''
/// c is a pixel of b
pub open spec fn src_px(b: PixelBuffer<Rgb>, c: Rgb) -> bool { exists|i: int, j: int| 0 <= i < b.w() && 0 <= j < b.h() && c == #[trigger] b.at(i, j) }
/// channel c of every pixel of b is v
pub open spec fn uni(b: PixelBuffer<Rgb>, c: int, v: real) -> bool { 0 <= c < 4 && 0real <= v <= 1real && forall|k: int| 0 <= k < b.px().len() ==> (#[trigger] b.px()[k]).data@[c].r() == v }
/// a uniform channel stays as it is
pub open spec fn keeps(b: PixelBuffer<Rgb>, r: Rgb) -> bool { forall|c: int, v: real| #[trigger] uni(b, c, v) ==> r.data@[c].r() == v }
pub open spec fn near(x: real) -> bool { -1000000000real <= x <= 1100000000real }
pub proof fn in_px(b: PixelBuffer<Rgb>)
    requires b.wf(), b.w() > 0
    ensures forall|x: int, y: int| #![trigger cl(x, b.w()), cl(y, b.h())] 0 <= ix(cl(x, b.w()), cl(y, b.h()), b.w()) < b.px().len(),
        forall|x: int, y: int| #![trigger ix(x, y, b.w())] 0 <= x < b.w() && 0 <= y < b.h() ==> 0 <= ix(x, y, b.w()) < b.px().len()
{
    ix_all(b.w(), b.h());
}
/// (x + 1) * w / nw for x < nw
pub proof fn scaled(x: int, nw: int, w: int)
    requires 0 <= x < nw, 0 < w <= 1073741823
    ensures nw as real / w as real > 0real, 0real <= (x as real + 1real / 2real) / (nw as real / w as real) <= w as real, 0real <= x as real / (nw as real / w as real) <= w as real
{
    let s = nw as real / w as real;
    assert(s > 0real) by (nonlinear_arith) requires nw > 0, w > 0, s == nw as real / w as real;
    assert(s * (w as real) == nw as real) by (nonlinear_arith) requires w > 0, s == nw as real / w as real;
    let a = x as real + 1real / 2real;
    let q = a / s;
    assert(q * s == a) by (nonlinear_arith) requires s > 0real, q == a / s;
    assert(0real <= q <= w as real) by (nonlinear_arith) requires q * s == a, s > 0real, s * (w as real) == nw as real, 0real <= a <= nw as real;
    let q2 = x as real / s;
    assert(q2 * s == x as real) by (nonlinear_arith) requires s > 0real, q2 == x as real / s;
    assert(0real <= q2 <= w as real) by (nonlinear_arith) requires q2 * s == x as real, s > 0real, s * (w as real) == nw as real, 0real <= x as real <= nw as real;
}
/// the position in the source the pixel (i, j) of a rotated image is taken from
pub open spec fn rotx(w: int, h: int, deg: real, i: int, j: int) -> real {
    let t = deg / -180real * @PI@; let cx = (w + 1) as real / 2real; let cy = (h + 1) as real / 2real; (i as real + 1real - cx) * rcos(t) - (j as real + 1real - cy) * rsin(t) + cx - 1real }
pub open spec fn roty(w: int, h: int, deg: real, i: int, j: int) -> real {
    let t = deg / -180real * @PI@; let cx = (w + 1) as real / 2real; let cy = (h + 1) as real / 2real; (i as real + 1real - cx) * rsin(t) + (j as real + 1real - cy) * rcos(t) + cy - 1real }
/// rounding of the position gives a pixel of b
pub open spec fn lands(b: PixelBuffer<Rgb>, x: real, y: real) -> bool { 0 <= rround(x) < b.w() && 0 <= rround(y) < b.h() }
/// trusted: sine and cosine of 0
pub axiom fn sin_cos_0() ensures rsin(0real) == 0real, rcos(0real) == 1real;
pub proof fn rot0(w: int, h: int, i: int, j: int)
    ensures rotx(w, h, 0real, i, j) == i as real, roty(w, h, 0real, i, j) == j as real, rround(i as real) == i, rround(j as real) == j
{ sin_cos_0(); rr(i); rr(j); let t = 0real / -180real * @PI@; assert(t == 0real) by (nonlinear_arith) requires t == 0real / -180real * @PI@; 
  let cx = (w + 1) as real / 2real; let cy = (h + 1) as real / 2real; assert((i as real + 1real - cx) * 1real - (j as real + 1real - cy) * 0real + cx - 1real == i as real); }
pub proof fn rr(i: int) ensures rround(i as real) == i { if i >= 0 { fl_half(i); } else { fl_half(-i); assert(0real - i as real == (-i) as real); } }
pub proof fn fl_half(i: int) ensures (i as real + 1real / 2real).floor() == i { }
pub open spec fn or_bg(o: Option<Rgb>, bg: Rgb) -> Rgb { match o { Some(c) => c, None => bg } }
'''
ROTL = r'''
/// c is what the interpolator f, known by its contract, gives at (x, y), bg where it gives nothing
pub open spec fn rot_px<F: FRrvv<PixelBuffer<Rgb>, f32, f32, Option<Rgb>>>(f: F, b: PixelBuffer<Rgb>, x: f32, y: f32, bg: Rgb, c: Rgb) -> bool { exists|o: Option<Rgb>| #[trigger] f.post(b, x, y, o) && c == or_bg(o, bg) }
'''
INTERP = ("bilinear", "bicubic", "lanczos3")
FILT = ["Nearest", "Bilinear", "Bicubic", "Lanczos3", "Auto"]


def geo_prelude():
    import vreal
    t = GEOL.replace("@PI@", vreal.PI)
    t += "#[derive(Clone, Copy)]\npub enum FilterMode { %s }\n" % ", ".join(enum_variants(FI, "FilterMode", FILT))
    # Lanczos: sums of transcendental weights, trusted to return (no contract on the colour)
    t += "impl Rgb {\n    #[verifier::external_body] pub fn clone(&self) -> (r: Rgb) ensures r == *self { unimplemented!() }\n}\n"
    return t


def interp_fns():
    UN = "keeps(*@p0, r)"
    cla = Fn("d10-core/src/color/mod.rs", "clamp", ens=["r.r() == rclamp(@p0.r(), 0real, 1real)"])
    new = Fn(RGB, "new_with_alpha", "Rgb", ens=["r.data@[%d].r() == rclamp(@p%d.r(), 0real, 1real)" % (i, i) for i in range(4)], known=["clamp"])
    li = Fn(FI, "linear_interpolate", ens=["r.r() == @p0.r() + (@p1.r() - @p0.r()) * @p2.r()", "@p0.r() == @p1.r() ==> r.r() == @p0.r()"], entry="proof { lerp(@p0.r(), @p1.r(), @p2.r()); }")
    gb = Fn(FI, "get_base_and_offset", req=["near(@p0.r())"], ens=["r.0 == rfloor(@p0.r())", "r.1.r() == @p0.r() - rfloor(@p0.r()) as real"], floaty=["pos_b"])
    hi = Fn(FI, "cubic_hermite_interpolate", ens=["@p0.r() == @p1.r() && @p1.r() == @p2.r() && @p2.r() == @p3.r() ==> r.r() == @p1.r()"],
            exit="lemma_hermite(@p1.r(), @p4.r());")
    bl = Fn(FI, "get_pixel_bilinear", req=["@p0.wf()", "@p0.w() > 0", "near(@p1.r())", "near(@p2.r())"], ens=[UN], entry="proof { in_px(*@p0); }")
    bc = Fn(FI, "get_pixel_bicubic", req=["@p0.wf()", "@p0.w() > 0", "near(@p1.r())", "near(@p2.r())"], ens=[UN], entry="proof { in_px(*@p0); }")
    return [cla, new, li, gb, hi, bl, bc]


def resize_ops():
    G = ["@p0.wf()", "@p0.w() > 0", "@p3.r() > 0real", "@p4.r() > 0real"]
    POS = ["(@p1 as real + 1real / 2real) / @p3.r() <= 1073741823real", "(@p2 as real + 1real / 2real) / @p4.r() <= 1073741823real"]
    near = Fn(RS, "resize_pixel_nearest", req=G, ens=["src_px(*@p0, r)", "keeps(*@p0, r)"], entry="proof { in_px(*@p0); }")
    pos = "proof { pos_half(@p1 as int, @p3.r()); pos_half(@p2 as int, @p4.r()); }"
    return [near] + [Fn(RS, "resize_pixel_" + n, req=G + POS, ens=["keeps(*@p0, r)"], entry=pos) for n in ("bilinear", "bicubic")]


TYS = ["PixelBuffer<Rgb>", "u32", "u32", "f32", "f32"]


def resize_items():
    g = "a0.wf() && a0.w() > 0 && a3.r() > 0real && a4.r() > 0real"
    pos = g + " && (a1 as real + 1real / 2real) / a3.r() <= 1073741823real && (a2 as real + 1real / 2real) / a4.r() <= 1073741823real"
    t = rel_item("resize_pixel_nearest", "rvvvv", TYS, "Rgb", g, "src_px(a0, r) && keeps(a0, r)", "resize_pixel_nearest")
    tab = {"resize_pixel_nearest": "resize_pixel_nearest"}
    for n in ("bilinear", "bicubic"):
        t += rel_item("resize_pixel_" + n, "rvvvv", TYS, "Rgb", pos, "keeps(a0, r)", "resize_pixel_" + n)
        tab["resize_pixel_" + n] = "resize_pixel_" + n
    for k in (7, 9, 11, 13):
        t += rel_item("lanczos_%d" % k, "rvvvv", TYS, "Rgb", pos, "true", "resize_pixel_lanczos::<%d>" % k)
        tab["resize_pixel_lanczos::<%d>" % k] = "lanczos_%d" % k
    return t, tab


def unit_resize():
    t, tab = resize_items()
    t += """/// trusted: the Lanczos interpolator returns (its colour has no contract: sums of transcendental weights)
#[verifier::external_body]
pub fn resize_pixel_lanczos<const N: usize>(buffer: &PixelBuffer<Rgb>, x: u32, y: u32, scale_x: f32, scale_y: f32) -> (r: Rgb) { unimplemented!() }
#[verifier::external_body]
pub fn get_pixel_lanczos_dyn(buffer: &PixelBuffer<Rgb>, x: f32, y: f32, size: usize) -> (r: Rgb) { unimplemented!() }
"""
    NW, NH = "@p1 as int", "@p2 as int"
    dims = ["r.wf()", "r.w() == @p1 && r.h() == @p2"]
    req = ["@p0.wf()", "@p0.w() > 0", "dims_ok(@p1 as int, @p2 as int)"]
    SX, SY = "mk(@p1 as real / @p0.w() as real)", "mk(@p2 as real / @p0.h() as real)"
    ent = "broadcast use ix_div; proof { dims_bound(@p0.w(), @p0.h()); dims_bound(@p1 as int, @p2 as int); no_pixels_hint(@p1 as int, @p2 as int); ix_all(@p1 as int, @p2 as int); scaled_all(@p1 as int, @p0.w()); scaled_all(@p2 as int, @p0.h()); }"
    head = "ix_of(_i0 as int, g_w, g_h);"
    gw = "let ghost g_w = @p1 as int; let ghost g_h = @p2 as int; let ghost g_sx = %s; let ghost g_sy = %s; " % (SX, SY)
    wf = Fn(RS, "resize_with_fn", pure="rel", inline=INLINE_NEW, tags=["collect"], req=req + ["forall|x: int, y: int| #![trigger @p3.pre(*@p0, x as u32, y as u32, %s, %s)] 0 <= x < @p1 && 0 <= y < @p2 ==> @p3.pre(*@p0, x as u32, y as u32, %s, %s)" % (SX, SY, SX, SY)],
            ens=dims + ["forall|i: int, j: int| #![trigger r.at(i, j)] 0 <= i < r.w() && 0 <= j < r.h() ==> @p3.post(*@p0, i as u32, j as u32, %s, %s, r.at(i, j))" % (SX, SY)],
            entry=gw + ent, loops=[Loop(["_n0 == g_w * g_h", "0 <= _i0 <= _n0", "_v0@.len() == _i0",
                                         "forall|k: int| #![trigger _v0@[k]] 0 <= k < _i0 ==> @p3.post(*@p0, (k % g_w) as u32, (k / g_w) as u32, g_sx, g_sy, _v0@[k])"], head=head)])
    au = Fn(RS, "resize_auto", req=req + ["@p1 > 0"], ens=dims, subst=[items_subst(tab)], inline=INLINE_NEW, entry=ent.replace("broadcast use ix_div; ", "broadcast use ix_div; "),
            loops=[Loop(["_n0 == @p1 * @p2", "0 <= _i0 <= _n0", "_v0@.len() == _i0"], head="ix_of(_i0 as int, @p1 as int, @p2 as int);")])
    rs = Fn(RS, "resize", req=req + ["@p1 > 0"], ens=dims + ["@p1 == @p0.w() && @p2 == @p0.h() ==> r == *@p0",
            "@p3 is Nearest ==> forall|i: int, j: int| #![trigger r.at(i, j)] 0 <= i < r.w() && 0 <= j < r.h() ==> src_px(*@p0, r.at(i, j))",
            "@p3 is Nearest || @p3 is Bilinear || @p3 is Bicubic ==> forall|i: int, j: int| #![trigger r.at(i, j)] 0 <= i < r.w() && 0 <= j < r.h() ==> keeps(*@p0, r.at(i, j))"],
            subst=[items_subst(tab)], entry=ent + " proof { in_px(*@p0); keeps_own(*@p0); }")
    yield Unit("c09_resize", lambda: prelude("B") + SPEC_CALLS + geo_prelude() + HERM + t, real=True).add(*base()).add(*interp_fns()).add(*resize_ops()).add(wf, au, rs)


def unit_resize_parts():
    yield Unit("c09_interp", lambda: prelude("B") + SPEC_CALLS + geo_prelude() + HERM, real=True).add(*base()).add(*interp_fns()).add(*resize_ops())


HERM = r'''
pub proof fn lerp(a: real, b: real, t: real)
    ensures a == b ==> (b - a) * t == 0real, a == b ==> a * (1real - t) + b * t == a, a * (1real - t) + b * t == a + (b - a) * t
{ assert(a == b ==> (b - a) * t == 0real) by (nonlinear_arith); assert(a * (1real - t) + b * t == a + (b - a) * t) by (nonlinear_arith); }
pub open spec fn pos_ok(x: int, nw: int, w: int) -> bool { 0real <= (x as real + 1real / 2real) / (nw as real / w as real) && (x as real + 1real / 2real) / (nw as real / w as real) <= w as real }
pub proof fn scaled_all(nw: int, w: int)
    requires 0 <= nw, 0 < w <= 1073741823
    ensures nw > 0 ==> nw as real / w as real > 0real, forall|x: int| #![trigger x as u32] #![trigger pos_ok(x, nw, w)] 0 <= x < nw ==> pos_ok(x, nw, w)
{
    if nw > 0 { scaled(0, nw, w); }
    assert forall|x: int| #![trigger x as u32] #![trigger pos_ok(x, nw, w)] 0 <= x < nw implies pos_ok(x, nw, w) by { scaled(x, nw, w); }
}
pub proof fn keeps_own(b: PixelBuffer<Rgb>)
    requires b.wf(), b.w() > 0
    ensures forall|i: int, j: int| #![trigger b.at(i, j)] 0 <= i < b.w() && 0 <= j < b.h() ==> keeps(b, b.at(i, j)) && src_px(b, b.at(i, j))
{ ix_all(b.w(), b.h()); }
pub proof fn lemma_hermite(v: real, t: real) ensures true { }
pub proof fn pos_half(x: int, s: real)
    requires s > 0real, x >= 0
    ensures (x as real + 1real / 2real) / s >= 0real
{ let a = x as real + 1real / 2real; assert(a / s >= 0real) by (nonlinear_arith) requires a >= 0real, s > 0real; }
'''


# ------------------------------------------------------------------ rotate
def rotate_items():
    t, tab = "", {}
    ty = ["PixelBuffer<Rgb>", "f32", "f32"]
    g = "a0.wf() && a0.w() > 0"
    non = "(r.is_some() == lands(a0, a1.r(), a2.r()))"
    t += rel_item("rotate_pixel_nearest", "rvv", ty, "Option<Rgb>", g, non + " && (r.is_some() ==> r->Some_0 == a0.at(rround(a1.r()), rround(a2.r())))", "rotate_pixel_nearest")
    tab["rotate_pixel_nearest"] = "rotate_pixel_nearest"
    for n in INTERP:
        t += rel_item("rotate_pixel_" + n, "rvv", ty, "Option<Rgb>", g, non, "rotate_pixel_" + n)
        tab["rotate_pixel_" + n] = "rotate_pixel_" + n
    return t, tab


def unit_rotate():
    t, tab = rotate_items()
    t += """#[verifier::external_body]
pub fn get_pixel_lanczos3(buffer: &PixelBuffer<Rgb>, x: f32, y: f32) -> (r: Rgb) { unimplemented!() }
"""
    G = ["@p0.wf()", "@p0.w() > 0"]
    L = "r.is_some() == lands(*@p0, @p1.r(), @p2.r())"
    rn = Fn(RT, "rotate_pixel_nearest", req=G, ens=[L, "r.is_some() ==> r->Some_0 == @p0.at(rround(@p1.r()), rround(@p2.r()))"], entry="proof { dims_bound(@p0.w(), @p0.h()); trunc_int(rround(@p1.r())); trunc_int(rround(@p2.r())); }")
    ops = [rn] + [Fn(RT, "rotate_pixel_" + n, req=G, ens=[L], entry="proof { dims_bound(@p0.w(), @p0.h()); trunc_int(rround(@p1.r())); trunc_int(rround(@p2.r())); }") for n in INTERP]
    X, Y = "mk(rotx(@p0.w(), @p0.h(), {a}.r(), {i}, {j}))", "mk(roty(@p0.w(), @p0.h(), {a}.r(), {i}, {j}))"

    def px(a, i, j, c, f="@p3"):
        return "rot_px(*%s, *@p0, %s, %s, @p2, %s)" % (f, X.format(a=a, i=i, j=j), Y.format(a=a, i=i, j=j), c)
    dims = ["r.wf()", "r.w() == @p0.w() && r.h() == @p0.h()"]
    wf = Fn(RT, "rotate_with_fn", pure="rel", inline=INLINE_NEW, tags=["collect"], req=["@p0.wf()", "forall|x: f32, y: f32| #![trigger @p3.pre(*@p0, x, y)] @p0.w() > 0 ==> @p3.pre(*@p0, x, y)"],
            ens=dims + ["forall|i: int, j: int| #![trigger r.at(i, j)] 0 <= i < r.w() && 0 <= j < r.h() ==> " + px("@p1", "i", "j", "r.at(i, j)")],
            entry="let ghost g_a = @p1; let ghost g_w = @p0.w(); let ghost g_h = @p0.h(); broadcast use ix_div; proof { dims_bound(g_w, g_h); no_pixels_hint(g_w, g_h); ix_all(g_w, g_h); }",
            loops=[Loop(["_n0 == g_w * g_h", "0 <= _i0 <= _n0", "_v0@.len() == _i0", "forall|k: int| #![trigger _v0@[k]] 0 <= k < _i0 ==> " + px("g_a", "k % g_w", "k / g_w", "_v0@[k]")],
                        head="if g_w > 0 { ix_of(_i0 as int, g_w, g_h); }")])
    land = "lands(*@p0, rotx(@p0.w(), @p0.h(), @p1.r(), i, j), roty(@p0.w(), @p0.h(), @p1.r(), i, j))"
    A = "forall|i: int, j: int| #![trigger r.at(i, j)] 0 <= i < r.w() && 0 <= j < r.h() ==> "
    ro = Fn(RT, "rotate", req=["@p0.wf()"], subst=[items_subst(tab)], entry="broadcast use ix_div; proof { dims_bound(@p0.w(), @p0.h()); no_pixels_hint(@p0.w(), @p0.h()); if @p0.w() > 0 { keeps_own(*@p0); in_px(*@p0); } rot0_all(*@p0, @p1.r()); }",
            ens=dims + ["@p1.r() == 360real ==> r == *@p0", "@p1.r() == 0real && @p3 is Nearest ==> forall|i: int, j: int| #![trigger r.at(i, j)] 0 <= i < r.w() && 0 <= j < r.h() ==> r.at(i, j) == @p0.at(i, j)",
                        "@p3 is Nearest ==> " + A + "r.at(i, j) == @p2 || src_px(*@p0, r.at(i, j))",
                        "rabs(@p1.r() - 360real) >= 1real / 1000000real ==> " + A + "!%s ==> r.at(i, j) == @p2" % land],
            exit="")
    yield Unit("c09_rotate", lambda: prelude("B") + SPEC_CALLS + geo_prelude() + HERM + ROTL + ROT0 + t, real=True).add(*base()).add(*interp_fns()).add(*ops).add(wf, ro)


ROT0 = r'''
pub proof fn rot0_all(b: PixelBuffer<Rgb>, d: real)
    ensures d == 0real ==> forall|i: int, j: int| #![trigger rotx(b.w(), b.h(), d, i, j)] rotx(b.w(), b.h(), d, i, j) == i as real && roty(b.w(), b.h(), d, i, j) == j as real && rround(i as real) == i && rround(j as real) == j
{ if d == 0real { assert forall|i: int, j: int| #![trigger rotx(b.w(), b.h(), d, i, j)] rotx(b.w(), b.h(), d, i, j) == i as real && roty(b.w(), b.h(), d, i, j) == j as real && rround(i as real) == i && rround(j as real) == j by { rot0(b.w(), b.h(), i, j); } } }
pub proof fn trunc_int(n: int) ensures rtrunc(n as real) == n { assert((n as real).floor() == n); assert(0real - n as real == (-n) as real); assert(((-n) as real).floor() == -n); }
'''
