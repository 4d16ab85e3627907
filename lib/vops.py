"""Contracts of the geometry operations (C04, C05, C06, C07, C08)."""
import itertools
import rast
from rast import Unsupported
from weave import Fn, Loop, Unit
import vcore
from vcore import PB, prelude, SPEC_CALLS, getters, pixel_fns, both, VALID

OPS = "d10-ops/src/"


def base(mode="B"):
    """the pixel buffer functions the operations call, with their contracts (panics unreachable)"""
    n = vcore.new_fns(mode)
    byname = {f.name: f for f in n}
    return [byname["is_valid_buffer_size"], byname["validate_size"], byname["new_with_color"], byname["new"], byname["new_from_raw"]] + getters() + pixel_fns(mode)


# name -> (width, height, source x, source y) of destination pixel (i, j);   W, H: size of the argument
PERM = {
    "flip_horizontal": ("flip.rs", "W", "H", "W - 1 - i", "j"),
    "flip_vertical": ("flip.rs", "W", "H", "i", "H - 1 - j"),
    "rotate90": ("rotate_90.rs", "H", "W", "j", "H - 1 - i"),
    "rotate180": ("rotate_90.rs", "W", "H", "W - 1 - i", "H - 1 - j"),
    "rotate270": ("rotate_90.rs", "H", "W", "W - 1 - j", "i"),
}


def perm_fn(name, order, space, style):
    f, W2, H2, sx, sy = PERM[name]
    ens = ["r.wf()", "r.w() == %s && r.h() == %s" % (W2.replace("W", "@p0.w()").replace("H", "@p0.h()"), H2.replace("W", "@p0.w()").replace("H", "@p0.h()")),
           "forall|i: int, j: int| #![trigger r.at(i, j)] 0 <= i < r.w() && 0 <= j < r.h() ==> r.at(i, j) == @p0.at(%s, %s)" % (sx.replace("W", "@p0.w()").replace("H", "@p0.h()"), sy.replace("W", "@p0.w()").replace("H", "@p0.h()"))]
    ent = ("broadcast use ix_div; let ghost W = @p0.w(); let ghost H = @p0.h(); proof { dims_bound(W, H); ix_all(W, H); ix_all(H, W); assert(W * H == H * W) by (nonlinear_arith); }")
    if style == "push":
        # destination pushed in row-major order
        val = "forall|i: int, j: int| #![trigger @push@[ix(i, j, %s)]] 0 <= i < %s && 0 <= j && ix(i, j, %s) < @push@.len() ==> @push@[ix(i, j, %s)] == @p0.at(%s, %s)" % (W2, W2, W2, W2, sx, sy)
        o = ["0 <= _i0 <= _n0 == %s" % H2, "@push@.len() == _i0 * %s" % W2, val]
        n = ["0 <= _i1 <= _n1 == %s" % W2, "@push@.len() == _i0 * %s + _i1" % W2, val]
        s1, s2 = (t.replace("i", "(_i1 as int)").replace("j", "(_i0 as int)") for t in (sx, sy))
        hd = "ix_in(_i1 as int, _i0 as int, %s, %s); ix_of_push(_i1 as int, _i0 as int, %s); ix_in(%s, %s, W, H);" % (W2, H2, W2, s1, s2)
        return Fn(OPS + f, name, req=["@p0.wf()"], ens=ens, entry=ent, loops=[Loop(o, after="mul_end(_i0 as int, %s);" % W2), Loop(n, head=hd, after="assert(_i0 * %s + %s == (_i0 + 1) * %s) by (nonlinear_arith);" % (W2, W2, W2))])
    X, Y = (sx, sy) if space == "src" else ("i", "j")
    A, B = (("W", "H") if space == "src" else (W2, H2))
    if order == "yx":
        done_o = "0 <= %s < _i0 && 0 <= %s < %s" % (Y, X, A)
        done_i = "((0 <= %s < _i0 && 0 <= %s < %s) || (%s == _i0 && 0 <= %s < _i1))" % (Y, X, A, Y, X)
        n0, n1 = B, A
        cx, cy = "_i1", "_i0"
    else:
        done_o = "0 <= %s < _i0 && 0 <= %s < %s" % (X, Y, B)
        done_i = "((0 <= %s < _i0 && 0 <= %s < %s) || (%s == _i0 && 0 <= %s < _i1))" % (X, Y, B, X, Y)
        n0, n1 = A, B
        cx, cy = "_i0", "_i1"
    inimg = "0 <= i < %s && 0 <= j < %s" % (W2, H2)
    q = "forall|i: int, j: int| #![trigger @asg@[ix(i, j, %s)]] %s && %%s ==> @asg@[ix(i, j, %s)] == @p0.at(%s, %s)" % (W2, inimg, W2, sx, sy)
    # the destination of source pixel (x, y)
    inv = {"flip_horizontal": ("W - 1 - x", "y"), "flip_vertical": ("x", "H - 1 - y"), "rotate90": ("H - 1 - y", "x"), "rotate180": ("W - 1 - x", "H - 1 - y"), "rotate270": ("y", "W - 1 - x")}[name]
    if space == "src":
        dx, dy = (t.replace("x", "(%s as int)" % cx).replace("y", "(%s as int)" % cy) for t in inv)
        head = "ix_in(%s as int, %s as int, W, H); ix_in(%s, %s, %s, %s);" % (cx, cy, dx, dy, W2, H2)
    else:
        s1, s2 = (t.replace("i", "(%s as int)" % cx).replace("j", "(%s as int)" % cy) for t in (sx, sy))
        head = "ix_in(%s as int, %s as int, %s, %s); ix_in(%s, %s, W, H);" % (cx, cy, W2, H2, s1, s2)
    common = ["@asg@.len() == W * H"]
    return Fn(OPS + f, name, req=["@p0.wf()"], ens=ens, entry=ent,
              loops=[Loop(["0 <= _i0 <= _n0 == " + n0] + common + [q % done_o]), Loop(["0 <= _i1 <= _n1 == " + n1] + common + [q % done_i], head=head)])


PUSHL = r'''
pub broadcast proof fn ix_of_push(x: int, y: int, w: int)
    requires 0 <= x < w, 0 <= y
    ensures #![trigger ix(x, y, w)] forall|i: int, j: int| #![trigger ix(i, j, w)] 0 <= i < w && 0 <= j && ix(i, j, w) == ix(x, y, w) ==> i == x && j == y
{
    ix_div(x, y, w);
    assert forall|i: int, j: int| #![trigger ix(i, j, w)] 0 <= i < w && 0 <= j && ix(i, j, w) == ix(x, y, w) implies i == x && j == y by { ix_div(i, j, w); }
}
pub proof fn mul_end(a: int, b: int) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
'''


def variants_perm():
    return [("src", "xy", "asg"), ("src", "yx", "asg"), ("dst", "xy", "asg"), ("dst", "yx", "asg"), ("dst", "yx", "push")]


def unit_perm(name):
    def alts():
        for space, order, style in variants_perm():
            yield Unit("c04_" + name, lambda: prelude("B") + SPEC_CALLS + PUSHL).add(*base()).add(perm_fn(name, order, space, style))
    return alts


def crop_fn(style):
    W, H = "@p0.w()", "@p0.h()"
    ox = "(if @p1 < {W} {{ @p1 as int }} else {{ {W} }})".format(W=W)
    oy = "(if @p2 < {H} {{ @p2 as int }} else {{ {H} }})".format(H=H)
    ent = ("broadcast use ix_div; let ghost g_ox: int = %s; let ghost g_oy: int = %s; let ghost g_w: int = if @p3 < %s - g_ox { @p3 as int } else { %s - g_ox }; "
           "let ghost g_h: int = if @p4 < %s - g_oy { @p4 as int } else { %s - g_oy }; let ghost W = @p0.w(); let ghost H = @p0.h();"
           " proof { dims_bound(W, H); no_pixels_hint(W, H); if 0 < g_w && 0 < g_h { sub_rect(g_w, g_h, W, H); dims_bound(g_w, g_h); ix_all(g_w, g_h); ix_all(W, H); } }" % (ox, oy, W, W, H, H))
    cw, ch = "crop_len(@p1 as int, @p3 as int, %s)" % W, "crop_len(@p2 as int, @p4 as int, %s)" % H
    ens = ["r.wf()", "%s > 0 && %s > 0 ==> r.w() == %s && r.h() == %s" % (cw, ch, cw, ch), "%s == 0 || %s == 0 ==> r.w() == 0 && r.h() == 0" % (cw, ch),
           "forall|i: int, j: int| #![trigger r.at(i, j)] 0 <= i < r.w() && 0 <= j < r.h() ==> r.at(i, j) == @p0.at(@p1 + i, @p2 + j)"]
    copied = "forall|k: int| #![trigger @push@[k]] 0 <= k < @push@.len() ==> @push@[k] == @p0.at(g_ox + k % g_w, g_oy + k / g_w)"
    end = "assert(_i0 * g_w == g_w * g_h) by (nonlinear_arith) requires _i0 == g_h;"
    if style == "rows":
        lp = [Loop(["0 <= _i0 <= _n0 == g_h", "0 < g_w && 0 < g_h", "@push@.len() == _i0 * g_w", copied],
                   head="row_in(g_ox, g_w, g_oy + _i0, W, H); row_push(g_w, _i0 as int, g_h); row_ks(g_w, _i0 as int);",
                   after=end)]
    else:
        lp = [Loop(["0 <= _i0 <= _n0 == g_h", "0 < g_w && 0 < g_h", "@push@.len() == _i0 * g_w", copied], after=end),
              Loop(["0 <= _i1 <= _n1 == g_w", "@push@.len() == _i0 * g_w + _i1", copied],
                   head="row_ks(g_w, _i0 as int); ix_in(_i1 as int, _i0 as int, g_w, g_h); ix_in(g_ox + _i1, g_oy + _i0, W, H);",
                   after="assert(_i0 * g_w + g_w == (_i0 + 1) * g_w) by (nonlinear_arith);")]
    return Fn(OPS + "crop.rs", "crop", req=["@p0.wf()"], ens=ens, entry=ent, loops=lp)


CROPL = r'''
/// length of the part of [off, off + len) inside [0, size)
pub open spec fn crop_len(off: int, len: int, size: int) -> int { if off >= size { 0 } else if off + len <= size { len } else { size - off } }
pub proof fn sub_rect(w: int, h: int, W: int, H: int)
    requires 0 < w <= W, 0 < h <= H
    ensures 0 < w * h <= W * H
{ assert(0 < w * h <= W * H) by (nonlinear_arith) requires 0 < w <= W, 0 < h <= H; }
pub proof fn row_in(x: int, w: int, y: int, W: int, H: int)
    requires 0 <= x, 0 < w, x + w <= W, 0 <= y < H
    ensures 0 <= y * W + x, y * W + x + w <= W * H, ix(x, y, W) == y * W + x
{ ix_in(x, y, W, H); ix_in(x + w - 1, y, W, H); }
pub proof fn row_push(w: int, y: int, h: int)
    requires 0 < w, 0 <= y < h
    ensures (y + 1) * w == y * w + w, 0 <= y * w, forall|i: int| #![trigger ix(i, y, w)] ix(i, y, w) == y * w + i
{ assert((y + 1) * w == y * w + w && 0 <= y * w) by (nonlinear_arith) requires 0 < w, 0 <= y; }
pub proof fn row_ks(w: int, y: int)
    requires 0 < w, 0 <= y
    ensures forall|k: int| #![trigger k % w] #![trigger k / w] y * w <= k < y * w + w ==> k % w == k - y * w && k / w == y
{
    assert forall|k: int| y * w <= k < y * w + w implies #[trigger] (k % w) == k - y * w && k / w == y by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, w, y, k - y * w);
    }
}
'''


def unit_crop():
    for style in ("rows", "pixels"):
        yield Unit("c05", lambda: prelude("B") + SPEC_CALLS + PUSHL + CROPL).add(*base()).add(crop_fn(style))


# ------------------------------------------------------------------ C08
INLINE_NEW = (("PixelBuffer::new_from_func", ((PB, "new_from_func", "PixelBuffer"), 2)), ("PixelBuffer::try_new_from_func", ((PB, "try_new_from_func", "PixelBuffer"), 2)))
CLMP = "pub open spec fn cl(v: int, n: int) -> int { if v < 0 { 0 } else if v >= n { n - 1 } else { v } }\n"


def interlace_fn():
    src = "@p0.at(cl(if {y} % 2 == 0 {{ {x} - g_off }} else {{ {x} + g_off }}, g_W), {y})"
    return Fn(OPS + "interlace.rs", "interlace", req=["@p0.wf()"], inline=INLINE_NEW, tags=["collect"],
              ens=["r.wf()", "r.w() == @p0.w() && r.h() == @p0.h()",
                   "forall|i: int, j: int| #![trigger r.at(i, j)] 0 <= i < r.w() && 0 <= j < r.h() ==> r.at(i, j) == @p0.at(cl(if j % 2 == 0 { i - @p1 } else { i + @p1 }, @p0.w()), j)"],
              entry="broadcast use ix_div; let ghost g_off: int = @p1 as int; let ghost g_W = @p0.w(); let ghost g_H = @p0.h(); proof { dims_bound(g_W, g_H); no_pixels_hint(g_W, g_H); ix_all(g_W, g_H); }",
              loops=[Loop(["0 <= _i0 <= _n0 == g_W * g_H", "_v0@.len() == _i0",
                           "forall|k: int| #![trigger _v0@[k]] 0 <= k < _i0 ==> _v0@[k] == " + src.format(x="(k % g_W)", y="(k / g_W)")],
                          head="ix_of(_i0 as int, g_W, g_H);")])


def unit_interlace():
    yield Unit("c08", lambda: prelude("B") + SPEC_CALLS + CLMP).add(*base()).add(interlace_fn())


# ------------------------------------------------------------------ C06
KX = "cl(@p1 + %s - g_n / 2, g_W)"
KY = "cl(@p2 + %s - g_n / 2, g_H)"
PB = vcore.PB


def kernel_fn(name, style):
    dyn = name == "get_kernel_dyn"
    n = "@p3" if dyn else "N"
    at = "{0}@[{1}]@[{2}]"

    def cell(v, i, j):
        return "%s == self.at(cl(@p1 + %s - %s / 2, self.w()), cl(@p2 + %s - %s / 2, self.h()))" % (at.format(v, j, i), i, n, j, n)
    rows = "forall|j: int, i: int| #![trigger @asg@[j]@[i]] 0 <= j < _i%d && 0 <= i < " + n + " ==> " + cell("@asg", "i", "j")
    shape = ["@asg@.len() == " + n] + (["forall|j: int| 0 <= j < %s ==> (#[trigger] @asg@[j])@.len() == %s" % (n, n)])
    fast = Loop(["_n0 == " + n, "0 <= _i0 <= _n0"] + shape + [rows % 0],
                head="ix_in(@p1 - {0} / 2, @p2 - {0} / 2 + _i0, self.w(), self.h()); ix_in(@p1 - {0} / 2 + {0} - 1, @p2 - {0} / 2 + _i0, self.w(), self.h()); mulc(self.w(), @p2 - {0} / 2 + _i0);".format(n))
    so = Loop(["_n1 == " + n, "0 <= _i1 <= _n1"] + shape + [rows % 1])
    si = Loop(["_n2 == " + n, "0 <= _i2 <= _n2", "0 <= _i1 < " + n] + shape + [rows % 1, "forall|i: int| #![trigger @asg@[_i1 as int]@[i]] 0 <= i < _i2 ==> " + cell("@asg", "i", "_i1 as int")])
    lim = "-0x4000_0000 <= @p1 <= 0x4000_0000 && -0x4000_0000 <= @p2 <= 0x4000_0000"
    req = ["self.wf()", "self.w() > 0", lim, "0 < %s <= 0x2000_0000" % n]
    ens = ["forall|i: int, j: int| #![trigger r@[j]@[i]] 0 <= i < %s && 0 <= j < %s ==> %s" % (n, n, cell("r", "i", "j"))]
    if dyn: ens = ["r@.len() == " + n, "forall|j: int| 0 <= j < %s ==> (#[trigger] r@[j])@.len() == %s" % (n, n)] + ens
    return Fn(PB, name, "PixelBuffer", req=req, ens=ens, loops=[fast, so, si], entry="proof { dims_bound(self.w(), self.h()); }")


KERL = CLMP + '''pub proof fn mulc(a: int, b: int) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
'''


def unit_kernel(name):
    def alts():
        yield Unit("c06_" + name, lambda: prelude("B") + SPEC_CALLS + KERL).add(*base()).add(kernel_fn(name, 0))
    return alts


# ------------------------------------------------------------------ C07
COMPL = r'''
/// greatest width / height of the first n buffers
pub open spec fn maxw<C: Color>(b: Seq<&PixelBuffer<C>>, n: int) -> int decreases n { if n <= 0 { 0 } else { let m = maxw(b, n - 1); if b[n - 1].w() > m { b[n - 1].w() } else { m } } }
pub open spec fn maxh<C: Color>(b: Seq<&PixelBuffer<C>>, n: int) -> int decreases n { if n <= 0 { 0 } else { let m = maxh(b, n - 1); if b[n - 1].h() > m { b[n - 1].h() } else { m } } }
/// the pixel of b at (x, y), d where it has none
pub open spec fn cover<C: Color>(b: &PixelBuffer<C>, x: int, y: int, d: C) -> C { if 0 <= x < b.w() && 0 <= y < b.h() { b.at(x, y) } else { d } }
/// the colours handed to the function for pixel k of an image of width w
pub open spec fn colors_at<C: Color>(c: Seq<C>, b: Seq<&PixelBuffer<C>>, k: int, w: int, d: C) -> bool {
    c.len() == b.len() && forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == cover(b[i], k % w, k / w, d)
}
pub open spec fn area(w: int, h: int) -> int { w * h }
'''


def compose_fns():
    res = []
    for name, sl, fall in (("try_compose", False, True), ("try_compose_slice", True, True), ("compose", False, False), ("compose_slice", True, False)):
        n = "(@p0@.len() as int)"
        inl = INLINE_NEW
        if not fall:
            t = "try_" + name
            inl = inl + ((t, ((OPS + "compose.rs", t), 2)),)
        at = "" if sl else "@"
        ok = "Ok::<C, E>(%s)" if fall else "%s"
        CV = ".3" if False else ""
        arr = "(#[trigger] {log}[{base} + i]).2@"

        def entries(log, base, upto, val):
            # calls base .. base+upto of the log are the calls for pixels 0 .. upto
            return ("forall|j: int| %s <= j < %s + %s ==> { let i = j - %s; let c = #[trigger] %s[j]; c.0 == (i %% g_w) as u32 && c.1 == (i / g_w) as u32 && colors_at(c.2%s, g_b, i, g_w, g_d)%s }" % (base, base, upto, base, log, at, " && c.3 == " + val if val else ""))
        L0 = "old(@p2).log()"
        R = "r->Ok_0" if fall else "r"
        pub = lambda t: t.replace("g_w", "maxw(@p0@, %s)" % n).replace("g_b", "@p0@").replace("g_d", "@p1")
        dims = "%s.wf() && %s.w() == maxw(@p0@, %s) && %s.h() == maxh(@p0@, %s)" % (R, R, n, R, n)
        pref = "forall|i: int| 0 <= i < %s.len() ==> final(@p2).log()[i] == %s[i]" % (L0, L0)
        full = "final(@p2).log().len() == %s.len() + %s.px().len()" % (L0, R)
        oks = [dims, full, pub(entries("final(@p2).log()", L0 + ".len()", R + ".px().len()", ok % (R + ".px()[i]")))]
        ens = [("r is Ok ==> " if fall else "") + o for o in oks] + ["final(@p2).log().len() >= %s.len()" % L0, pref]
        if fall:
            lastc = "{ let c = final(@p2).log()[final(@p2).log().len() - 1]; let k = final(@p2).log().len() - %s.len() - 1; 0 <= k < area(g_w, maxh(@p0@, %s)) && c.0 == (k %% g_w) as u32 && c.1 == (k / g_w) as u32 && colors_at(c.2%s, g_b, k, g_w, g_d) && c.3 == Err::<C, E>(r->Err_0) }" % (L0, n, at)
            ens.append("r is Err ==> " + pub(lastc))
            ens.append("r is Err ==> forall|j: int| %s.len() <= j < final(@p2).log().len() - 1 ==> (#[trigger] final(@p2).log()[j]).3 is Ok" % L0)
            ens.append("r is Err ==> " + pub(entries("final(@p2).log()", L0 + ".len()", "(final(@p2).log().len() - 1 - %s.len())" % L0, "")))
        mx = lambda k, f: Loop(["0 <= _i%d <= _n%d == %s" % (k, k, n), "_m%d.is_none() == (_i%d == 0)" % (k, k), "_i%d > 0 ==> _m%d->Some_0 == %s(@p0@, _i%d as int)" % (k, k, f, k)], tail="max_step(@p0@, _i%d as int);" % k)
        base = "l0.len()"
        common = ["_n2 == g_w * g_h", "_n2 == area(g_w, g_h)", "_i2 <= _n2", "@asg@.len() == %s" % n, "l0.len() <= @p2.log().len()", "forall|i: int| 0 <= i < l0.len() ==> @p2.log()[i] == l0[i]",
                  "_e2.is_none() ==> _v2@.len() == _i2 && @p2.log().len() == l0.len() + _i2 && " + entries("@p2.log()", base, "_i2", ok % "_v2@[i]")]
        if fall:
            common += ["_e2.is_some() ==> _v2@.len() == kk && kk < _i2 && @p2.log().len() == l0.len() + kk + 1 && " + entries("@p2.log()", base, "kk", ok % "_v2@[i]"),
                       "_e2.is_some() ==> { let c = @p2.log()[l0.len() + kk]; c.0 == (kk %% g_w) as u32 && c.1 == (kk / g_w) as u32 && colors_at(c.2%s, g_b, kk, g_w, g_d) && c.3 == Err::<C, E>(_e2->Some_0) }" % at]
        else:
            common += ["_e2.is_none()"]
        inner = ["0 <= _i3 <= _n3 == %s" % n, "@asg@.len() == %s" % n, "forall|k: int| 0 <= k < _i3 ==> #[trigger] @asg@[k] == cover(@p0@[k], _i2 as int % g_w, _i2 as int / g_w, g_d)"]
        g = "g_w == maxw(@p0@, %s) && g_h == maxh(@p0@, %s)" % (n, n)
        ent = "let ghost l0 = @p2.log(); let ghost g_b = @p0@; let ghost g_d = @p1; let ghost g_w = maxw(@p0@, %s); let ghost g_h = maxh(@p0@, %s); let ghost mut kk = 0int; proof { no_pixels_hint(g_w, g_h); maxbound(@p0@, %s); }" % (n, n, n)
        lp = [mx(0, "maxw"), mx(1, "maxh"), Loop(common, head="if g_w == 0 { no_pixels(g_w, g_h); } ix_of(_i2 as int, g_w, g_h); dims_bound(g_w, g_h); kk = _v2@.len() as int;", after="if _e2.is_some() { assert(0 <= kk); assert(kk < _n2); assert(kk < area(g_w, g_h)); assert(@p2.log().len() - l0.len() - 1 == kk); }"), Loop(inner)]
        res.append(Fn(OPS + "compose.rs", name, req=["forall|i: int| 0 <= i < @p0@.len() ==> (#[trigger] @p0@[i]).wf()"], ens=ens, loops=lp, entry=ent, inline=inl))
    return res


MAXB = r'''
pub proof fn max_step<C: Color>(b: Seq<&PixelBuffer<C>>, i: int)
    requires 0 <= i < b.len()
    ensures maxw(b, i + 1) == (if b[i].w() > maxw(b, i) { b[i].w() } else { maxw(b, i) }), maxh(b, i + 1) == (if b[i].h() > maxh(b, i) { b[i].h() } else { maxh(b, i) }), maxw(b, 0) == 0, maxh(b, 0) == 0
{ }
pub proof fn maxbound<C: Color>(b: Seq<&PixelBuffer<C>>, n: int)
    requires 0 <= n <= b.len(), forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).wf()
    ensures 0 <= maxw(b, n) <= 1073741823, 0 <= maxh(b, n) <= 1073741823
    decreases n
{ if n > 0 { maxbound(b, n - 1); let p = b[n - 1]; dims_bound(p.w(), p.h()); } }
'''


def unit_compose(k):
    def alts():
        yield Unit("c07_%d" % k, lambda: prelude("A") + SPEC_CALLS + COMPL + MAXB).add(*base("A")).add(compose_fns()[k])
    return alts


BLENDS = (("Normal", "blend_normal"), ("Addition", "blend_addition"), ("Subtract", "blend_subtract"), ("Darken", "blend_darken"), ("Lighten", "blend_lighten"), ("HslDarken", "blend_hsl_darken"),
          ("HslLighten", "blend_hsl_lighten"), ("LchDarken", "blend_lch_darken"), ("LchLighten", "blend_lch_lighten"), ("LchHue", "blend_lch_hue"), ("LchSaturation", "blend_lch_saturation"), ("LchColor", "blend_lch_color"))


def blend_prelude():
    t = '''
/// the colour of pixel (i, j) of a blend of p and q with the pure function f
pub open spec fn blend_px(p: &PixelBuffer<Rgb>, q: &PixelBuffer<Rgb>, i: int, j: int, both: Rgb, none: Rgb) -> Rgb {
    if i < p.w() && j < p.h() && i < q.w() && j < q.h() { both } else if i < p.w() && j < p.h() { p.at(i, j) } else if i < q.w() && j < q.h() { q.at(i, j) } else { none }
}
pub open spec fn imax(a: int, b: int) -> int { if a < b { b } else { a } }
/// each blend function as the value of its own contract (C14)
#[verifier::external_body]
pub fn rgb_none_x() -> (r: Rgb) ensures r == rgb_none() { unimplemented!() }
'''
    t += "/// Rgb::NONE is transparent black\npub fn rgb_none_value() -> (r: Rgb) ensures r.data@[0] == 0.0f32 && r.data@[1] == 0.0f32 && r.data@[2] == 0.0f32 && r.data@[3] == 0.0f32 { %s }\n" % rast.ue(rast.const("d10-core/src/color/rgb.rs", "NONE", "Rgb")["e"])
    t += "pub enum BlendOp { %s }\n" % ", ".join(enum_variants(OPS + "blend.rs", "BlendOp", [a for a, _ in BLENDS]))
    for _, f in BLENDS:
        t += "pub uninterp spec fn s_%s(a: Rgb, b: Rgb, i: f32) -> Rgb;\npub struct Op_%s { pub u: u8 }\nimpl FPvvv<Rgb, Rgb, f32, Rgb> for Op_%s { open spec fn f(&self, a: Rgb, b: Rgb, i: f32) -> Rgb { s_%s(a, b, i) } open spec fn pre(&self, a: Rgb, b: Rgb, i: f32) -> bool { true }\n    #[verifier::external_body] fn call(&self, a: Rgb, b: Rgb, i: f32) -> (r: Rgb) { unimplemented!() } }\n" % (f, f, f, f)
    t += "pub open spec fn s_blend(op: BlendOp, a: Rgb, b: Rgb, i: f32) -> Rgb { match op { %s } }\n" % ", ".join("BlendOp::%s => s_%s(a, b, i)" % x for x in BLENDS)
    return t


def enum_variants(rel, name, want):
    """the enum's variants in /repo must be the ones the contract knows (their order is free)"""
    import re, os, native
    src = open(os.path.join(native.REPO, rel), encoding="utf-8").read()
    m = re.search(r"enum\s+%s\s*\{(.*?)\}" % name, src, re.S)
    got = [x.strip() for x in re.sub(r"//[^\n]*|#\[[^\]]*\]", "", m.group(1)).split(",") if x.strip()] if m else []
    if sorted(got) != sorted(want):
        raise Unsupported("variants of %s are %s" % (name, got))
    return got


def none_subst(b):
    return rast.rewrite(b, lambda n: rast.call("rgb_none_x") if n.get("k") == "path" and n.get("p") == "Rgb::NONE" else n)


def op_subst(b):
    names = {f for _, f in BLENDS}
    return rast.rewrite(b, lambda n: {"k": "rawe", "t": "(&Op_%s { u: 0 })" % n["p"]} if n.get("k") == "path" and n.get("p") in names else n)


def unit_blend():
    W, H = "imax(@p0.w(), @p1.w())", "imax(@p0.h(), @p1.h())"

    def px(both):
        return "forall|i: int, j: int| #![trigger r.at(i, j)] 0 <= i < r.w() && 0 <= j < r.h() ==> r.at(i, j) == blend_px(@p0, @p1, i, j, %s, rgb_none())" % both
    dims = ["r.wf()", "r.w() == %s && r.h() == %s" % (W, H)]
    req = ["@p0.wf()", "@p1.wf()"]
    wf = Fn(OPS + "blend.rs", "blend_image_with_func", req=req + ["forall|a: Rgb, b: Rgb, i: f32| @p3.pre(a, b, i)"], ens=dims + [px("@p3.f(@p0.at(i, j), @p1.at(i, j), @p2)")], inline=INLINE_NEW, pure=True, subst=[none_subst], tags=["collect"],
            entry="broadcast use ix_div; let ghost g_w = %s; let ghost g_h = %s; proof { no_pixels_hint(g_w, g_h); dims_bound(@p0.w(), @p0.h()); dims_bound(@p1.w(), @p1.h()); }" % (W, H),
            loops=[Loop(["_n0 == g_w * g_h", "0 <= _i0 <= _n0", "dims_ok(g_w, g_h)", "_v0@.len() == _i0",
                         "forall|k: int| #![trigger _v0@[k]] 0 <= k < _i0 ==> _v0@[k] == blend_px(@p0, @p1, k % g_w, k / g_w, @p3.f(@p0.at(k % g_w, k / g_w), @p1.at(k % g_w, k / g_w), @p2), rgb_none())"],
                        head="if g_w == 0 { no_pixels(g_w, g_h); } dims_bound(g_w, g_h); ix_of(_i0 as int, g_w, g_h);", after="dims_bound(g_w, g_h); ix_all(g_w, g_h);")])
    bl = Fn(OPS + "blend.rs", "blend_image", req=req, ens=dims + [px("s_blend(@p2, @p0.at(i, j), @p1.at(i, j), @p3)")], subst=[op_subst])
    yield Unit("c07_blend", lambda: prelude("A") + SPEC_CALLS + blend_prelude()).add(*base("A")).add(wf, bl)


# ------------------------------------------------------------------ C06: convolution over the reals
KD = "d10-core/src/kernel_dyn.rs"
KN = "d10-core/src/kernel.rs"
CONVL = r'''
pub struct KernelDyn { pub data: Vec<f32>, pub width: u32, pub height: u32 }
impl KernelDyn {
    pub open spec fn wf(&self) -> bool { self.data@.len() == self.width * self.height && 0 < self.width <= 0x4000 && 0 < self.height <= 0x4000 }
}
pub struct Kernel<const N: usize> { pub data: [[f32; N]; N] }
/// channel c of the image pixel the window of k places under weight n (row-major)
pub open spec fn win(b: &PixelBuffer<Rgb>, x: int, y: int, kw: int, kh: int, n: int, c: int) -> real { b.at(cl(x + n % kw - kw / 2, b.w()), cl(y + n / kw - kh / 2, b.h())).data@[c].r() }
/// the convolution sum over the first n weights
pub open spec fn conv(b: &PixelBuffer<Rgb>, k: Seq<f32>, x: int, y: int, kw: int, kh: int, n: int, c: int) -> real decreases n {
    if n <= 0 { 0real } else { conv(b, k, x, y, kw, kh, n - 1, c) + win(b, x, y, kw, kh, n - 1, c) * k[n - 1].r() }
}
/// sum over a square array of weights and values, the first n in row-major order
pub open spec fn dot2(k: spec_fn(int, int) -> real, v: spec_fn(int, int) -> real, m: int, n: int) -> real decreases n {
    if n <= 0 { 0real } else { dot2(k, v, m, n - 1) + k((n - 1) / m, (n - 1) % m) * v((n - 1) / m, (n - 1) % m) }
}
'''


def unit_conv_dyn():
    req = ["self.wf()", "self.w() > 0", "@p3.wf()", "@p1 < 0x4000_0000 && @p2 < 0x4000_0000"]
    sum_ = lambda n, c: "conv(self, @p3.data@, @p1 as int, @p2 as int, @p3.width as int, @p3.height as int, %s, %s)" % (n, c)
    f = Fn(PB, "get_kernel_value", "PixelBuffer", req=req, impl="PixelBuffer < Rgb >" if False else None, resolve=(("enumerate", (KD, "enumerate", "KernelDyn")),),
           ens=["forall|c: int| #![trigger r.data@[c]] 0 <= c < 4 ==> r.data@[c].r() == " + sum_("@p3.width * @p3.height", "c")],
           loops=[Loop(["_n0 == @p3.data@.len()", "0 <= _i0 <= _n0", "forall|c: int| #![trigger @asg@[c]] 0 <= c < 4 ==> @asg@[c].r() == " + sum_("_i0 as int", "c")],
                       head="dims_bound(self.w(), self.h()); no_pixels_hint(@p3.width as int, @p3.height as int); assert(@p3.width * @p3.height <= 0x4000 * 0x4000) by (nonlinear_arith) requires @p3.width <= 0x4000, @p3.height <= 0x4000; ix_of(_i0 as int, @p3.width as int, @p3.height as int); let ghost g_old = @asg@;"),
                  Loop(["_n1 == 4", "0 <= _i1 <= _n1", "forall|c: int| #![trigger @asg@[c]] 0 <= c < _i1 ==> @asg@[c].r() == " + sum_("_i0 + 1", "c"),
                        "forall|c: int| #![trigger @asg@[c]] _i1 <= c < 4 ==> @asg@[c].r() == " + sum_("_i0 as int", "c")])])
    k = [Fn(KD, "get_offset_x", "KernelDyn", req=["self.width <= 0x4000"], ens=["r == self.width as int / 2"]), Fn(KD, "get_offset_y", "KernelDyn", req=["self.height <= 0x4000"], ens=["r == self.height as int / 2"]),
         Fn(KD, "new", "KernelDyn", req=["@p1 <= 0x4000 && @p2 <= 0x4000"], ens=["r.data@ == @p0@ && r.width == @p1 && r.height == @p2", "@p0@.len() == @p1 * @p2"],
            entry="proof { assert(@p1 as int * @p2 as int <= 0x4000 * 0x4000) by (nonlinear_arith) requires @p1 <= 0x4000, @p2 <= 0x4000; }")]
    d = Fn(PB, "apply_kernel_dyn", "PixelBuffer", req=["self.wf()", "@p1.wf()"], inline=((".map_colors_enumerated", ((PB, "map_colors_enumerated", "PixelBuffer"), 0)),), resolve=vcore.ENUM,
           ens=["r.wf()", "r.w() == self.w() && r.h() == self.h()", "forall|i: int, j: int, c: int| #![trigger r.at(i, j).data@[c]] 0 <= i < r.w() && 0 <= j < r.h() && 0 <= c < 4 ==> r.at(i, j).data@[c].r() == conv(self, @p1.data@, i, j, @p1.width as int, @p1.height as int, @p1.width * @p1.height, c)"],
           entry="broadcast use ix_div; proof { dims_bound(self.w(), self.h()); no_pixels_hint(self.w(), self.h()); ix_all(self.w(), self.h()); }", tags=["collect"],
           loops=[Loop(["_n0 == self.px().len()", "0 <= _i0 <= _n0", "_v0@.len() == _i0",
                        "forall|k: int, c: int| #![trigger _v0@[k].data@[c]] 0 <= k < _i0 && 0 <= c < 4 ==> _v0@[k].data@[c].r() == conv(self, @p1.data@, k % self.w(), k / self.w(), @p1.width as int, @p1.height as int, @p1.width * @p1.height, c)"],
                       head="ix_of(_i0 as int, self.w(), self.h());", ty="Rgb")])
    yield Unit("c06_dyn", lambda: prelude("A") + SPEC_CALLS + KERL + CONVL, real=True).add(*base("A")).add(*k).add(f, d)


ROWCOL = r'''
pub proof fn rowcol(y: int, x: int, n: int)
    requires 0 <= y < n, 0 <= x < n
    ensures (y * n + x) / n == y, (y * n + x) % n == x, 0 <= y * n + x < n * n, y * n + x + 1 <= n * n
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * n + x, n, y, x); assert(0 <= y * n && y * n + x < n * n) by (nonlinear_arith) requires 0 <= y < n, 0 <= x < n; }
'''
CONV2 = ROWCOL + r'''
/// the closure |c, i| c.data[i]
pub open spec fn winN(b: &PixelBuffer<Rgb>, x: int, y: int, n: int, j: int, i: int, c: int) -> real { b.at(cl(x + i - n / 2, b.w()), cl(y + j - n / 2, b.h())).data@[c].r() }
pub open spec fn dotw<const N: usize>(b: &PixelBuffer<Rgb>, k: [[f32; N]; N], x: int, y: int, n: int, c: int) -> real decreases n {
    if n <= 0 { 0real } else { dotw(b, k, x, y, n - 1, c) + k@[(n - 1) / (N as int)]@[(n - 1) % (N as int)].r() * winN(b, x, y, N as int, (n - 1) / (N as int), (n - 1) % (N as int), c) }
}
pub open spec fn dotf<T, F: FPrv<T, usize, f32>, const N: usize>(k: [[f32; N]; N], d: [[T; N]; N], f: F, n: int, i: int) -> real decreases n {
    if n <= 0 { 0real } else { dotf(k, d, f, n - 1, i) + k@[(n - 1) / (N as int)]@[(n - 1) % (N as int)].r() * f.f(d@[(n - 1) / (N as int)]@[(n - 1) % (N as int)], i as usize).r() }
}
pub proof fn dot_same<F: FPrv<Rgb, usize, f32>, const N: usize>(b: &PixelBuffer<Rgb>, k: [[f32; N]; N], d: [[Rgb; N]; N], f: F, x: int, y: int, n: int, c: int)
    requires 0 <= n <= N * N, 0 <= c < 4, forall|p: Rgb, i: usize| i < 4 ==> f.f(p, i) == p.data@[i as int],
        forall|i: int, j: int| #![trigger d@[j]@[i]] 0 <= i < N && 0 <= j < N ==> d@[j]@[i] == b.at(cl(x + i - N as int / 2, b.w()), cl(y + j - N as int / 2, b.h()))
    ensures dotf(k, d, f, n, c) == dotw(b, k, x, y, n, c)
    decreases n
{ if n > 0 { dot_same(b, k, d, f, x, y, n - 1, c); ix_of(n - 1, N as int, N as int); } }
pub open spec fn is_win<const N: usize>(b: &PixelBuffer<Rgb>, d: [[Rgb; N]; N], x: int, y: int) -> bool {
    forall|i: int, j: int| #![trigger d@[j]@[i]] 0 <= i < N && 0 <= j < N ==> d@[j]@[i] == b.at(cl(x + i - N as int / 2, b.w()), cl(y + j - N as int / 2, b.h()))
}
pub proof fn dot_all<F: FPrv<Rgb, usize, f32>, const N: usize>(b: &PixelBuffer<Rgb>, k: [[f32; N]; N], f: F, x: int, y: int)
    requires forall|p: Rgb, i: usize| i < 4 ==> f.f(p, i) == p.data@[i as int]
    ensures forall|d: [[Rgb; N]; N], c: int| #![trigger dotf(k, d, f, N * N, c)] 0 <= c < 4 && is_win(b, d, x, y) ==> dotf(k, d, f, N * N, c) == dotw(b, k, x, y, N * N, c)
{
    assert forall|d: [[Rgb; N]; N], c: int| #![trigger dotf(k, d, f, N * N, c)] 0 <= c < 4 && is_win(b, d, x, y) implies dotf(k, d, f, N * N, c) == dotw(b, k, x, y, N * N, c) by {
        assert(N * N >= 0) by (nonlinear_arith);
        dot_same(b, k, d, f, x, y, N * N, c);
    }
}
'''


def apply_kernel_fn():
    N = "(N as int)"
    base_ = "dotf(self.data, *@p1, *@p2, %s, {c})"
    S = lambda n: "forall|c: int| #![trigger @asg@[c]] {rng} ==> @asg@[c].r() == " + base_ % n
    return Fn(KN, "apply_kernel", "Kernel", pure=True, req=["forall|t: T, i: usize| i < S ==> @p2.pre(t, i)", "0 < N <= 0x4000"],
              ens=["forall|c: int| #![trigger r@[c]] 0 <= c < S ==> r@[c].r() == " + (base_ % "N * N").format(c="c")],
              entry="proof { assert(N * N >= 0) by (nonlinear_arith); }",
              loops=[Loop(["_n0 == N", "0 <= _i0 <= _n0", S("_i0 * N").format(rng="0 <= c < S", c="c")], after="assert(_i0 * N == N * N) by (nonlinear_arith) requires _i0 == N;"),
                     Loop(["_n1 == N", "0 <= _i1 <= _n1", "_i0 < N", S("_i0 * N + _i1").format(rng="0 <= c < S", c="c")], head="rowcol(_i0 as int, _i1 as int, N as int);",
                          after="assert(_i0 * N + N == (_i0 + 1) * N) by (nonlinear_arith);"),
                     Loop(["_n2 == S", "0 <= _i2 <= _n2", S("_i0 * N + _i1 + 1").format(rng="0 <= c < _i2", c="c"), S("_i0 * N + _i1").format(rng="_i2 <= c < S", c="c")])])


def unit_conv():
    d = Fn(PB, "apply_kernel", "PixelBuffer", req=["self.wf()", "0 < N <= 0x4000"], inline=((".map_colors_enumerated", ((PB, "map_colors_enumerated", "PixelBuffer"), 0)),), resolve=vcore.ENUM,
           fpclos=[("rv", ["Rgb", "usize", "Fl"], "@c0.data@[@c1 as int]", "@c1 < 4")],
           ens=["r.wf()", "r.w() == self.w() && r.h() == self.h()", "forall|i: int, j: int, c: int| #![trigger r.at(i, j).data@[c]] 0 <= i < r.w() && 0 <= j < r.h() && 0 <= c < 4 ==> r.at(i, j).data@[c].r() == dotw(self, @p1.data, i, j, N * N, c)"],
           entry="broadcast use ix_div; proof { dims_bound(self.w(), self.h()); no_pixels_hint(self.w(), self.h()); ix_all(self.w(), self.h()); assert(N * N >= 0) by (nonlinear_arith); }", tags=["collect"],
           loops=[Loop(["_n0 == self.px().len()", "0 <= _i0 <= _n0", "_v0@.len() == _i0",
                        "forall|k: int, c: int| #![trigger _v0@[k].data@[c]] 0 <= k < _i0 && 0 <= c < 4 ==> _v0@[k].data@[c].r() == dotw(self, @p1.data, k % self.w(), k / self.w(), N * N, c)"],
                       head="ix_of(_i0 as int, self.w(), self.h());",
                       tail="dot_all(self, @p1.data, Clo0apply_kernel { u: 0 }, _i0 as int % self.w(), _i0 as int / self.w());", ty="Rgb")])
    yield Unit("c06_fix", lambda: prelude("A") + SPEC_CALLS + KERL + CONVL + CONV2, real=True).add(*base("A")).add(kernel_fn("get_kernel", 0), apply_kernel_fn(), d)
