"""Contracts of the smoothing filters (C27), over the reals."""
import rast
from weave import Fn, Loop, Unit
import vcore, vops
from vcore import PB, prelude, SPEC_CALLS
from vops import OPS, KD, KN, KERL, CONVL, CONV2, ROWCOL, base

GB = OPS + "gaussian_blur.rs"

GAUSL = r'''
/// sum of the first n values of f
pub open spec fn fsum(f: spec_fn(int) -> real, n: int) -> real decreases n { if n <= 0 { 0real } else { fsum(f, n - 1) + f(n - 1) } }
pub open spec fn lin(k: Seq<f32>) -> spec_fn(int) -> real { |n: int| k[n].r() }
pub open spec fn linN<const N: usize>(k: [[f32; N]; N]) -> spec_fn(int) -> real { |n: int| k@[n / (N as int)]@[n % (N as int)].r() }
/// weights of an average: none negative, total 1
pub open spec fn avg(f: spec_fn(int) -> real, n: int) -> bool { (forall|m: int| 0 <= m < n ==> (#[trigger] f(m)) >= 0real) && fsum(f, n) == 1real }
pub proof fn fsum_same(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: int)
    requires forall|m: int| 0 <= m < n ==> f(m) == #[trigger] g(m)
    ensures fsum(f, n) == fsum(g, n) decreases n
{ if n > 0 { fsum_same(f, g, n - 1); } }
pub proof fn fsum_zero(f: spec_fn(int) -> real, n: int)
    requires forall|m: int| 0 <= m < n ==> (#[trigger] f(m)) == 0real
    ensures fsum(f, n) == 0real decreases n
{ if n > 0 { fsum_zero(f, n - 1); } }
pub proof fn fsum_zeros()
    ensures forall|f: spec_fn(int) -> real, n: int| #![trigger fsum(f, n)] (forall|m: int| 0 <= m < n ==> (#[trigger] f(m)) == 0real) ==> fsum(f, n) == 0real
{ assert forall|f: spec_fn(int) -> real, n: int| #![trigger fsum(f, n)] (forall|m: int| 0 <= m < n ==> (#[trigger] f(m)) == 0real) implies fsum(f, n) == 0real by { fsum_zero(f, n); } }
pub proof fn one(a: real, s: real) requires a * s == s, s > 0real ensures a == 1real { assert(a == 1real) by (nonlinear_arith) requires a * s == s, s > 0real; }
pub proof fn norm_step(f: real, q: real, d: real, t: real, s: real) requires f * s + (t - f) == s, q * s == d ensures (f + q) * s + ((t + q - d) - (f + q)) == s { assert((f + q) * s == f * s + q * s) by (nonlinear_arith); }
/// f and g differ at i only
pub proof fn fsum_upd(f: spec_fn(int) -> real, g: spec_fn(int) -> real, i: int, n: int)
    requires 0 <= i, forall|m: int| 0 <= m < n && m != i ==> (#[trigger] g(m)) == f(m)
    ensures fsum(g, n) == fsum(f, n) + (if i < n { g(i) - f(i) } else { 0real }) decreases n
{ if n > 0 { fsum_upd(f, g, i, n - 1); if i >= n { } } }
/// the weighted sum of values between lo and hi
pub open spec fn wdot(k: spec_fn(int) -> real, v: spec_fn(int) -> real, n: int) -> real decreases n { if n <= 0 { 0real } else { wdot(k, v, n - 1) + v(n - 1) * k(n - 1) } }
pub proof fn wdot_in(k: spec_fn(int) -> real, v: spec_fn(int) -> real, n: int, lo: real, hi: real)
    requires forall|m: int| 0 <= m < n ==> (#[trigger] k(m)) >= 0real, forall|m: int| 0 <= m < n ==> lo <= (#[trigger] v(m)) <= hi
    ensures lo * fsum(k, n) <= wdot(k, v, n) <= hi * fsum(k, n) decreases n
{
    if n > 0 {
        wdot_in(k, v, n - 1, lo, hi);
        let a = k(n - 1); let b = v(n - 1); let s = fsum(k, n - 1);
        assert(lo * a <= b * a <= hi * a) by (nonlinear_arith) requires lo <= b <= hi, a >= 0real;
        assert(lo * (s + a) == lo * s + lo * a && hi * (s + a) == hi * s + hi * a) by (nonlinear_arith);
    } else { assert(lo * 0real == 0real && hi * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn sq_nonneg(x: real) ensures x * x >= 0real { assert(x * x >= 0real) by (nonlinear_arith); }
pub proof fn gauss_s(x: real) ensures 2real * x * x >= 0real { assert(2real * x * x >= 0real) by (nonlinear_arith); }
pub proof fn pos_mul(a: real, b: real) requires a > 0real, b > 0real ensures a * b > 0real { assert(a * b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real; }
pub proof fn pos_div(a: real, b: real) requires b > 0real ensures a >= 0real ==> a / b >= 0real, a > 0real ==> a / b > 0real, a / b * b == a {
    assert(a / b * b == a) by (nonlinear_arith) requires b > 0real;
    let q = a / b;
    if a > 0real { assert(q > 0real) by (nonlinear_arith) requires q * b == a, a > 0real, b > 0real; }
    if a >= 0real { assert(q >= 0real) by (nonlinear_arith) requires q * b == a, a >= 0real, b > 0real; }
}
'''


def gauss_fn(dyn, style):
    """new_gaussian: the weights of an average.  style 0: iteration (x, y) writes column x + offset, row y + offset; style 1: the transposed entry"""
    n = "(@p0 as int)" if dyn else "(N as int)"
    D = "@asg@" if dyn else "@asg"
    L = lambda d: ("lin(%s)" if dyn else "linN::<N>(%s)") % d
    N2 = "%s * %s" % (n, n)
    tot = "fsum(%s, %s)" % (L(D), N2)
    S = "@m1.r()"
    off = "(%s / 2)" % n
    col, row = ("k %% %s" % n, "k / %s" % n) if style == 0 else ("k / %s" % n, "k %% %s" % n)
    el = "%s[k]" % D if dyn else "%s@[k / %s]@[k %% %s]" % (D, n, n)
    nonneg = "forall|k: int| #![trigger %s] 0 <= k < %s ==> %s.r() >= 0real" % (el, N2, el) if dyn else "forall|i: int, j: int| #![trigger %s@[i]@[j]] 0 <= i < N && 0 <= j < N ==> %s@[i]@[j].r() >= 0real" % (D, D)

    def rest(o, i):
        """the entries not yet written are 0"""
        if dyn:
            c = "%s >= %s" % (col, o) if i is None else "%s > %s || (%s == %s && %s >= %s)" % (col, o, col, o, row, i)
            return "forall|k: int| #![trigger %s[k]] 0 <= k < %s && (%s) ==> %s[k].r() == 0real" % (D, N2, c, D)
        cc, rr = ("j", "i") if style == 0 else ("i", "j")
        c = "%s >= %s" % (cc, o) if i is None else "%s > %s || (%s == %s && %s >= %s)" % (cc, o, cc, o, rr, i)
        return "forall|i: int, j: int| #![trigger %s@[i]@[j]] 0 <= i < N && 0 <= j < N && (%s) ==> %s@[i]@[j].r() == 0real" % (D, c, D)
    ln = ["%s.len() == %s" % (D, N2)] if dyn else []
    ghost = "let ghost g_old = %s;" % D
    X, Y = "_i0 + " + off, "_i1 + " + off
    pos = "(%s) * %s + %s" % ((Y, n, X) if style == 0 else (X, n, Y))
    outer = Loop(["_n0 == %s - %s" % (n, off), "-%s <= _i0 <= _n0" % off] + ln + [S + " == " + tot, S + " >= 0real", "_i0 > -%s ==> %s > 0real" % (off, S), nonneg, rest(X, None)])
    inner = Loop(["_n1 == %s - %s" % (n, off), "-%s <= _i1 <= _n1" % off, "_i0 < _n0"] + ln + [S + " == " + tot, S + " >= 0real", "_i1 > -%s || _i0 > -%s ==> %s > 0real" % (off, off, S), nonneg, rest(X, Y)],
                 ghost=ghost, head="rowcol(%s, %s, %s);" % ((Y, X, n) if style == 0 else (X, Y, n)),
                 tail="fsum_upd(%s, %s, %s, %s);" % (L("g_old"), L(D), pos, N2))

    def step(p):
        return "fsum_upd({a}, {b}, {p}, {p}); fsum_upd({a}, {b}, {p}, {p} + 1); fsum_upd({a}, {b}, {p}, {n2}); norm_step(fsum({a}, {p}), {b}({p}), {a}({p}), fsum({a}, {n2}), {s});".format(a=L("g_old"), b=L(D), p=p, n2=N2, s=S)
    half = lambda p: "fsum({d}, {p}) * {s} + ({t} - fsum({d}, {p})) == {s}".format(d=L(D), p=p, s=S, t=tot)
    fin = "one(%s, %s);" % (tot, S)
    if dyn:
        norm = [Loop(["_n2 == " + N2, "0 <= _i2 <= _n2"] + ln + [S + " > 0real", nonneg, half("_i2 as int")], ghost=ghost, after=fin, tail=step("_i2 as int"))]
    else:
        norm = [Loop(["_n2 == N", "0 <= _i2 <= _n2", S + " > 0real", nonneg, half("_i2 * N")], after=fin),
                Loop(["_n3 == N", "0 <= _i3 <= _n3", "_i2 < N", S + " > 0real", nonneg, half("(_i2 * N + _i3)")], ghost=ghost, head="rowcol(_i2 as int, _i3 as int, N as int);",
                     after="assert(_i2 * N + N == (_i2 + 1) * N) by (nonlinear_arith);", tail=step("(_i2 * N + _i3)"))]
    lim = "assert(0 < {0} <= 0x4000 * 0x4000) by (nonlinear_arith) requires 0 < {1} <= 0x4000;".format(N2, n)
    if dyn:
        return Fn(KD, "new_gaussian", "KernelDyn", req=["0 < @p0 <= 0x4000"], ens=["r.wf() && r.width == @p0 && r.height == @p0", "avg(%s, %s)" % (L("r.data@"), N2)],
                  tags=["for"] * 3, signed=True, entry="proof { fsum_zeros(); %s }" % lim, loops=[outer, inner] + norm)
    return Fn(KN, "new_gaussian", "Kernel", req=["0 < N <= 0x4000"], ens=["avg(%s, %s)" % (L("r.data"), N2)],
              tags=["for"] * 4, signed=True, entry="proof { fsum_zeros(); rc_all(N as int); %s }" % lim, loops=[outer, inner] + norm)


GAUSN = r"""
/// every linear position has a row and a column
pub proof fn rc_all(n: int)
    requires n > 0
    ensures forall|k: int| #![trigger k / n] #![trigger k % n] 0 <= k < n * n ==> 0 <= k / n < n && 0 <= k % n < n && k == (k / n) * n + k % n
{ assert forall|k: int| #![trigger k / n] #![trigger k % n] 0 <= k < n * n implies 0 <= k / n < n && 0 <= k % n < n && k == (k / n) * n + k % n by { ix_of(k, n, n); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n); assert(n * (k / n) == (k / n) * n) by (nonlinear_arith); } }
"""


def knew():
    return [Fn(KD, "new", "KernelDyn", req=["@p1 <= 0x4000 && @p2 <= 0x4000"], ens=["r.data@ == @p0@ && r.width == @p1 && r.height == @p2", "@p0@.len() == @p1 * @p2"],
               entry="proof { assert(@p1 as int * @p2 as int <= 0x4000 * 0x4000) by (nonlinear_arith) requires @p1 <= 0x4000, @p2 <= 0x4000; }"),
            Fn(KN, "new", "Kernel", ens=["r.data == @p0"])]


def unit_gauss(dyn):
    def alts():
        for style in (0, 1):
            yield Unit("c22_gauss_%s" % ("dyn" if dyn else "fix"), lambda: prelude("A") + SPEC_CALLS + KERL + CONVL + ROWCOL + GAUSL + GAUSN, real=True).add(*base("A")).add(*knew(), gauss_fn(dyn, style))
    return alts


# ------------------------------------------------------------------ gaussian blur
BLURL = r'''
/// channel c of every pixel of b is v
pub open spec fn uni(b: PixelBuffer<Rgb>, c: int, v: real) -> bool { 0 <= c < 4 && 0real <= v <= 1real && forall|i: int, j: int| 0 <= i < b.w() && 0 <= j < b.h() ==> (#[trigger] b.at(i, j)).data@[c].r() == v }
/// the colour channels of every pixel are in [0, 1]
pub open spec fn b3(b: PixelBuffer<Rgb>) -> bool { forall|i: int, j: int, c: int| #![trigger b.at(i, j).data@[c]] 0 <= i < b.w() && 0 <= j < b.h() && 0 <= c < 3 ==> 0real <= b.at(i, j).data@[c].r() <= 1real }
/// so are all four of them
pub open spec fn b4(b: PixelBuffer<Rgb>) -> bool { forall|i: int, j: int, c: int| #![trigger b.at(i, j).data@[c]] 0 <= i < b.w() && 0 <= j < b.h() && 0 <= c < 4 ==> 0real <= b.at(i, j).data@[c].r() <= 1real }
/// a uniform channel stays as it is
pub open spec fn keeps_uni(b: PixelBuffer<Rgb>, r: PixelBuffer<Rgb>) -> bool { forall|c: int, v: real| #[trigger] uni(b, c, v) ==> uni(r, c, v) }
/// channel c of the n x n neighbourhood of (x, y), with the edges repeated, is between lo and hi
pub open spec fn in_win(b: &PixelBuffer<Rgb>, x: int, y: int, n: int, c: int, lo: real, hi: real) -> bool { forall|m: int| 0 <= m < n * n ==> lo <= (#[trigger] win(b, x, y, n, n, m, c)) <= hi }
/// every channel of r is between the minimum and the maximum of the neighbourhood in b
pub open spec fn blurred(b: &PixelBuffer<Rgb>, r: PixelBuffer<Rgb>, n: int) -> bool {
    forall|i: int, j: int, c: int, lo: real, hi: real| #![trigger r.at(i, j).data@[c], in_win(b, i, j, n, c, lo, hi)] 0 <= i < r.w() && 0 <= j < r.h() && 0 <= c < 4 && in_win(b, i, j, n, c, lo, hi) ==> lo <= r.at(i, j).data@[c].r() <= hi
}
pub open spec fn wf_(b: &PixelBuffer<Rgb>, x: int, y: int, n: int, c: int) -> spec_fn(int) -> real { |m: int| win(b, x, y, n, n, m, c) }
pub proof fn conv_dot(b: &PixelBuffer<Rgb>, k: Seq<f32>, x: int, y: int, n: int, m: int, c: int)
    ensures conv(b, k, x, y, n, n, m, c) == wdot(lin(k), wf_(b, x, y, n, c), m) decreases m
{ if m > 0 { conv_dot(b, k, x, y, n, m - 1, c); } }
/// a convolution with weights of an average stays in the neighbourhood's range
pub proof fn conv_all(b: &PixelBuffer<Rgb>, n: int)
    ensures forall|k: Seq<f32>, x: int, y: int, c: int, lo: real, hi: real| #![trigger conv(b, k, x, y, n, n, n * n, c), in_win(b, x, y, n, c, lo, hi)] avg(lin(k), n * n) && in_win(b, x, y, n, c, lo, hi) ==> lo <= conv(b, k, x, y, n, n, n * n, c) <= hi
{
    assert forall|k: Seq<f32>, x: int, y: int, c: int, lo: real, hi: real| #![trigger conv(b, k, x, y, n, n, n * n, c), in_win(b, x, y, n, c, lo, hi)] avg(lin(k), n * n) && in_win(b, x, y, n, c, lo, hi) implies lo <= conv(b, k, x, y, n, n, n * n, c) <= hi by {
        conv_dot(b, k, x, y, n, n * n, c);
        wdot_in(lin(k), wf_(b, x, y, n, c), n * n, lo, hi);
        assert(lo * 1real == lo && hi * 1real == hi) by (nonlinear_arith);
    }
}
/// every neighbourhood in an image with channels in range is in range
pub proof fn b3_win(b: PixelBuffer<Rgb>, n: int)
    requires b.wf(), b.w() > 0, n > 0
    ensures forall|r: PixelBuffer<Rgb>| #![trigger b3(r)] blurred(&b, r, n) && r.w() == b.w() && r.h() == b.h() && b3(b) ==> b3(r)
{
    assert forall|r: PixelBuffer<Rgb>| #![trigger b3(r)] blurred(&b, r, n) && r.w() == b.w() && r.h() == b.h() && b3(b) implies b3(r) by {
        assert forall|i: int, j: int, c: int| #![trigger r.at(i, j).data@[c]] 0 <= i < r.w() && 0 <= j < r.h() && 0 <= c < 3 implies 0real <= r.at(i, j).data@[c].r() <= 1real by { assert(in_win(&b, i, j, n, c, 0real, 1real)); }
    }
}
/// every neighbourhood of a uniform channel is uniform
pub proof fn uni_win(b: PixelBuffer<Rgb>, n: int)
    requires b.wf(), b.w() > 0, n > 0
    ensures forall|r: PixelBuffer<Rgb>| #![trigger keeps_uni(b, r)] blurred(&b, r, n) && r.w() == b.w() && r.h() == b.h() ==> keeps_uni(b, r)
{
    assert forall|r: PixelBuffer<Rgb>| #![trigger keeps_uni(b, r)] blurred(&b, r, n) && r.w() == b.w() && r.h() == b.h() implies keeps_uni(b, r) by {
        assert forall|c: int, v: real| #[trigger] uni(b, c, v) implies uni(r, c, v) by {
            assert forall|i: int, j: int| 0 <= i < r.w() && 0 <= j < r.h() implies (#[trigger] r.at(i, j)).data@[c].r() == v by { assert(in_win(&b, i, j, n, c, v, v)); }
        }
    }
}
'''
DOTL = r'''
pub proof fn dot_wdot<const N: usize>(b: &PixelBuffer<Rgb>, k: [[f32; N]; N], x: int, y: int, m: int, c: int)
    ensures dotw(b, k, x, y, m, c) == wdot(linN::<N>(k), wf_(b, x, y, N as int, c), m) decreases m
{ if m > 0 { dot_wdot(b, k, x, y, m - 1, c); let a = k@[(m - 1) / (N as int)]@[(m - 1) % (N as int)].r(); let v = win(b, x, y, N as int, N as int, m - 1, c); assert(a * v == v * a) by (nonlinear_arith); } }
pub proof fn dotw_all<const N: usize>(b: &PixelBuffer<Rgb>)
    ensures forall|k: [[f32; N]; N], x: int, y: int, c: int, lo: real, hi: real| #![trigger dotw(b, k, x, y, N * N, c), in_win(b, x, y, N as int, c, lo, hi)] avg(linN::<N>(k), N * N) && in_win(b, x, y, N as int, c, lo, hi) ==> lo <= dotw(b, k, x, y, N * N, c) <= hi
{
    assert forall|k: [[f32; N]; N], x: int, y: int, c: int, lo: real, hi: real| #![trigger dotw(b, k, x, y, N * N, c), in_win(b, x, y, N as int, c, lo, hi)] avg(linN::<N>(k), N * N) && in_win(b, x, y, N as int, c, lo, hi) implies lo <= dotw(b, k, x, y, N * N, c) <= hi by {
        dot_wdot(b, k, x, y, N * N, c);
        wdot_in(linN::<N>(k), wf_(b, x, y, N as int, c), N * N, lo, hi);
        assert(lo * 1real == lo && hi * 1real == hi) by (nonlinear_arith);
    }
}
'''


def blur_fns():
    n = "(2 * @p1 as int + 1)"
    sig = Fn(GB, "get_default_sigma", ens=["r.r() == (@p0 as int as real - 1real) / 4real"])
    g = Fn(GB, "gaussian_blur", req=["@p0.wf()", "@p0.w() > 0", "@p1 <= 8191"],
           ens=["r.wf() && r.w() == @p0.w() && r.h() == @p0.h()", "blurred(@p0, r, %s)" % n, "keeps_uni(*@p0, r)", "b3(*@p0) ==> b3(r)"],
           entry="proof { let n = %s; b3_win(*@p0, n); conv_all(@p0, n); dotw_all::<3>(@p0); dotw_all::<5>(@p0); dotw_all::<7>(@p0); uni_win(*@p0, n); }" % n)
    return [sig, g]


def unit_blur():
    d = list(vops.unit_conv_dyn())[0].fns
    f = list(vops.unit_conv())[0].fns
    have = {(x.name, x.owner) for x in d}
    fns = d + [x for x in f if (x.name, x.owner) not in have]
    yield Unit("c22_blur", lambda: prelude("A") + SPEC_CALLS + KERL + CONVL + CONV2 + GAUSL + GAUSN + BLURL + DOTL, real=True).add(*fns).add(*[x for x in knew() if (x.name, x.owner) not in have], gauss_fn(True, 0), gauss_fn(False, 0), *blur_fns())


US = OPS + "unsharp.rs"
UNSL = r'''
pub proof fn uni_conv(b: PixelBuffer<Rgb>, n: int)
    requires b.wf(), b.w() > 0, n > 0
    ensures forall|c: int, v: real, x: int, y: int| #![trigger uni(b, c, v), in_win(&b, x, y, n, c, v, v)] uni(b, c, v) ==> in_win(&b, x, y, n, c, v, v)
{ }
pub open spec fn sharp(b: PixelBuffer<Rgb>, k: KernelDyn, x: int, y: int, f: real, c: int) -> real {
    rclamp(b.at(x, y).data@[c].r() + (b.at(x, y).data@[c].r() - conv(&b, k.data@, x, y, k.width as int, k.height as int, k.width * k.height, c)) * f, 0real, 1real)
}
pub proof fn sharp_uni(b: PixelBuffer<Rgb>, n: int, f: real)
    requires b.wf(), b.w() > 0, n > 0
    ensures forall|k: KernelDyn, x: int, y: int, c: int, v: real| #![trigger sharp(b, k, x, y, f, c), uni(b, c, v)] k.width == n && k.height == n && avg(lin(k.data@), n * n) && 0 <= x < b.w() && 0 <= y < b.h() && uni(b, c, v) ==> sharp(b, k, x, y, f, c) == v
{
    conv_all(&b, n);
    assert forall|k: KernelDyn, x: int, y: int, c: int, v: real| #![trigger sharp(b, k, x, y, f, c), uni(b, c, v)] k.width == n && k.height == n && avg(lin(k.data@), n * n) && 0 <= x < b.w() && 0 <= y < b.h() && uni(b, c, v) implies sharp(b, k, x, y, f, c) == v by {
        assert(in_win(&b, x, y, n, c, v, v));
        let z = conv(&b, k.data@, x, y, n, n, n * n, c);
        assert(z == v);
        assert(0real * f == 0real) by (nonlinear_arith);
    }
}
'''


def rgb_new():
    import vgeo
    return [Fn("d10-core/src/color/mod.rs", "clamp", ens=["r.r() == rclamp(@p0.r(), 0real, 1real)"]),
            Fn(vgeo.RGB, "new_with_alpha", "Rgb", ens=["r.data@[%d].r() == rclamp(@p%d.r(), 0real, 1real)" % (i, i) for i in range(4)], known=["clamp"])]


def unsharp_fn():
    n = "(2 * @p1 as int + 1)"
    K = "@l2"
    return Fn(US, "unsharp", req=["@p0.wf()", "@p0.w() > 0", "@p1 <= 8191", "@p0.w() < 0x4000_0000 && @p0.h() < 0x4000_0000"],
              ens=["r.wf() && r.w() == @p0.w() && r.h() == @p0.h()", "keeps_uni(*@p0, r)", "b4(r)"], tags=["collect"],
              inline=((".map_colors_enumerated", ((PB, "map_colors_enumerated", "PixelBuffer"), 0)),), resolve=vcore.ENUM,
              entry="broadcast use ix_div; proof { dims_bound(@p0.w(), @p0.h()); no_pixels_hint(@p0.w(), @p0.h()); ix_all(@p0.w(), @p0.h()); sharp_uni(*@p0, %s, @p2.r()); }" % n,
              loops=[Loop(["_n0 == @p0.px().len()", "0 <= _i0 <= _n0", "_v0@.len() == _i0",
                           "forall|k: int, c: int| #![trigger _v0@[k].data@[c]] 0 <= k < _i0 && 0 <= c < 4 ==> _v0@[k].data@[c].r() == sharp(*@p0, %s, k %% @p0.w(), k / @p0.w(), @p2.r(), c)" % K],
                          head="ix_of(_i0 as int, @p0.w(), @p0.h());", ty="Rgb")])


def unit_unsharp():
    u = list(unit_blur())[0].fns
    keep = [x for x in u if x.name not in ("apply_kernel", "apply_kernel_dyn", "gaussian_blur") and x.owner != "Kernel" and x.name != "get_kernel"]
    yield Unit("c22_unsharp", lambda: prelude("A") + SPEC_CALLS + KERL + CONVL + ROWCOL + GAUSL + GAUSN + BLURL + UNSL, real=True).add(*keep, *rgb_new(), unsharp_fn())


# ------------------------------------------------------------------ despeckle
DS, SN = OPS + "despeckle.rs", OPS + "symmetric_nearest_neighbor.rs"
UNI = BLURL[:BLURL.index("/// channel c of the n x n")] + r'''
/// a channel that is uniform in b keeps its value in the colour c
pub open spec fn keeps(b: PixelBuffer<Rgb>, r: Rgb) -> bool { forall|c: int, v: real| #[trigger] uni(b, c, v) ==> r.data@[c].r() == v }
/// colour c is made of channels in [0, 1]
pub open spec fn unit_c(c: Rgb) -> bool { forall|k: int| 0 <= k < 4 ==> 0real <= (#[trigger] c.data@[k]).r() <= 1real }
pub open spec fn unit_b(b: PixelBuffer<Rgb>) -> bool { forall|i: int, j: int| 0 <= i < b.w() && 0 <= j < b.h() ==> unit_c(#[trigger] b.at(i, j)) }
pub open spec fn scale_ok(b: PixelBuffer<Rgb>, o: Rgb, r: Rgb) -> bool { keeps(b, r) && (unit_c(o) ==> unit_c(r)) }
pub proof fn over(n: real, v: real) requires n > 0real ensures n * v / n == v { assert(n * v / n == v) by (nonlinear_arith) requires n > 0real; }
pub proof fn addv(n: real, v: real) ensures n * v + v == (n + 1real) * v, 0real * v == 0real, 1real * v == v { assert(n * v + v == (n + 1real) * v) by (nonlinear_arith); assert(0real * v == 0real && 1real * v == v) by (nonlinear_arith); }
pub proof fn keeps_all(b: PixelBuffer<Rgb>)
    ensures forall|r: PixelBuffer<Rgb>| #![trigger b4(r)] b4(b) && r.w() == b.w() && r.h() == b.h() && (forall|i: int, j: int| 0 <= i < r.w() && 0 <= j < r.h() && unit_c(b.at(i, j)) ==> unit_c(#[trigger] r.at(i, j))) ==> b4(r),
        forall|r: PixelBuffer<Rgb>| #![trigger unit_b(r)] unit_b(b) && r.w() == b.w() && r.h() == b.h() && (forall|i: int, j: int| 0 <= i < r.w() && 0 <= j < r.h() && unit_c(b.at(i, j)) ==> unit_c(#[trigger] r.at(i, j))) ==> unit_b(r),
        forall|r: PixelBuffer<Rgb>| #![trigger keeps_uni(b, r)] r.w() == b.w() && r.h() == b.h() && (forall|i: int, j: int| 0 <= i < r.w() && 0 <= j < r.h() ==> keeps(b, #[trigger] r.at(i, j))) ==> keeps_uni(b, r)
{ }
'''
DESL = r'''
pub uninterp spec fn gray_of(c: Rgb, i: Intensity) -> Rgb;
impl Rgb {
    /// the gray is a function of the colour (its formula does not matter here)
    #[verifier::external_body] pub fn to_gray_with_intensity(self, i: Intensity) -> (r: Rgb) ensures r == gray_of(self, i) { unimplemented!() }
    #[verifier::external_body] pub fn red(&self) -> (r: f32) ensures r == self.data@[0] { unimplemented!() }
    #[verifier::external_body] pub fn alpha(&self) -> (r: f32) ensures r == self.data@[3] { unimplemented!() }
}
pub open spec fn below(c: Rgb, t: real) -> bool { gray_of(c, Intensity::Average).data@[0].r() < t }
/// how many of the first n pixels of the window, row by row, are below the threshold
pub open spec fn dark(k: [[Rgb; 3]; 3], t: real, n: int) -> int decreases n { if n <= 0 { 0 } else { dark(k, t, n - 1) + if below(k@[(n - 1) / 3]@[(n - 1) % 3], t) { 1int } else { 0 } } }
pub proof fn dark_le(k: [[Rgb; 3]; 3], t: real, n: int) requires n >= 0 ensures 0 <= dark(k, t, n) <= n decreases n { if n > 0 { dark_le(k, t, n - 1); } }
pub proof fn win_uni(b: PixelBuffer<Rgb>, k: [[Rgb; 3]; 3], x: int, y: int)
    requires b.wf(), b.w() > 0, forall|i: int, j: int| #![trigger k@[j]@[i]] 0 <= i < 3 && 0 <= j < 3 ==> k@[j]@[i] == b.at(cl(x + i - 1, b.w()), cl(y + j - 1, b.h()))
    ensures forall|c: int, v: real, i: int, j: int| #![trigger uni(b, c, v), k@[j]@[i]] uni(b, c, v) && 0 <= i < 3 && 0 <= j < 3 ==> k@[j]@[i].data@[c].r() == v
{ }
pub proof fn tv_step(n: int)
    ensures forall|v: real| #![trigger tv(n, v)] #![trigger tv(n + 1, v)] tv(n, v) + v == tv(n + 1, v)
{ assert forall|v: real| #![trigger tv(n, v)] #![trigger tv(n + 1, v)] tv(n, v) + v == tv(n + 1, v) by { addv(n as real, v); } }
pub proof fn tv_ends(n: int)
    ensures forall|v: real| #![trigger tv(0, v)] tv(0, v) == 0real, forall|v: real| #![trigger tv(n, v)] n > 0 ==> tv(n, v) / (n as real) == v
{
    assert forall|v: real| #![trigger tv(0, v)] tv(0, v) == 0real by { addv(0real, v); }
    assert forall|v: real| #![trigger tv(n, v)] n > 0 implies tv(n, v) / (n as real) == v by { over(n as real, v); }
}
/// n times v
pub open spec fn tv(n: int, v: real) -> real { (n as real) * v }
'''


def despeckle_fns():
    lim = "@p0.w() < 0x4000_0000 && @p0.h() < 0x4000_0000"
    k, T = "@l0", "@p1.r()"
    cnt = lambda n: "@m0 as int == dark(%s, %s, %s)" % (k, T, n)
    A = "@asg"
    acc = lambda n: "forall|c: int, v: real| #![trigger uni(*@p0, c, v)] uni(*@p0, c, v) && c < 3 ==> %s@[c].r() == tv(%s - dark(%s, %s, %s), v)" % (A, n, k, T, n)
    W = "win_uni(*@p0, %s, @p3 as int, @p4 as int); tv_ends(9 - dark(%s, %s, 9));" % (k, k, T)

    cell = "assert((_i{0} * 3 + _i{1}) / 3 == _i{0} && (_i{0} * 3 + _i{1}) %% 3 == _i{1}); dark_le(%s, %s, _i{0} * 3 + _i{1});" % (k, T)
    loops = [Loop(["_n0 == 3", "0 <= _i0 <= _n0", cnt("_i0 * 3"), "@m0 <= _i0 * 3"], after=W + " dark_le(%s, %s, 9);" % (k, T)),
             Loop(["_n1 == 3", "0 <= _i1 <= _n1", "_i0 < 3", cnt("_i0 * 3 + _i1"), "@m0 <= _i0 * 3 + _i1"], head=cell.format(0, 1)),
             Loop(["_n2 == 3", "0 <= _i2 <= _n2", acc("_i2 * 3")]),
             Loop(["_n3 == 3", "0 <= _i3 <= _n3", "_i2 < 3", acc("_i2 * 3 + _i3")], head=cell.format(2, 3) + " tv_step(_i2 * 3 + _i3 - dark(%s, %s, _i2 * 3 + _i3));" % (k, T))]
    clo = Fn(DS, "despeckle", clo=0, ctys=("u32", "u32", "&Rgb"), cret="Rgb", as_name="clo0_despeckle", req=["@p0.wf()", "@p0.w() > 0", lim, "@p3 < @p0.w() && @p4 < @p0.h()", "*@p5 == @p0.at(@p3 as int, @p4 as int)"],
             ens=["scale_ok(*@p0, *@p5, r)"], loops=loops)
    d = Fn(DS, "despeckle", lift=(0,), req=["@p0.wf()", "@p0.w() > 0", lim], ens=["r.wf() && r.w() == @p0.w() && r.h() == @p0.h()", "keeps_uni(*@p0, r)", "unit_b(*@p0) ==> unit_b(r)", "b4(*@p0) ==> b4(r)"], tags=["collect"],
           inline=((".map_colors_enumerated", ((PB, "map_colors_enumerated", "PixelBuffer"), 0)),), resolve=vcore.ENUM,
           entry="broadcast use ix_div; proof { dims_bound(@p0.w(), @p0.h()); no_pixels_hint(@p0.w(), @p0.h()); ix_all(@p0.w(), @p0.h()); keeps_all(*@p0); }",
           loops=[Loop(["_n0 == @p0.px().len()", "0 <= _i0 <= _n0", "_v0@.len() == _i0", "forall|k: int| #![trigger _v0@[k]] 0 <= k < _i0 ==> scale_ok(*@p0, @p0.px()[k], _v0@[k])"],
                       head="ix_of(_i0 as int, @p0.w(), @p0.h());", ty="Rgb")])
    return [clo, d]


def unit_despeckle():
    import vcodec
    yield Unit("c22_despeckle", lambda: prelude("A") + SPEC_CALLS + KERL + UNI + vcodec.intensity() + DESL, real=True).add(*base("A")).add(vops.kernel_fn("get_kernel", 0), *rgb_new(), *despeckle_fns())


# ------------------------------------------------------------------ symmetric nearest neighbour
def snn_pairs():
    """the const table of neighbour pairs, as a function returning it"""
    import vcol
    c = rast.const(SN, "PAIRS")
    e = rast.strip(c["e"])
    if e["k"] != "array" or any(rast.strip(x)["k"] != "tuple" or len(rast.strip(x)["e"]) != 4 for x in e["e"]): raise rast.Unsupported("PAIRS")
    ens = "".join("        r@[%d].%d == %s,\n" % (i, j, int(vcol.val(v))) for i, x in enumerate(e["e"]) for j, v in enumerate(rast.strip(x)["e"]))
    return "pub fn PAIRS() -> (r: %s)\n    ensures\n%s{ %s }\n" % (c["ty"], ens, rast.ue(e)), len(e["e"])


SNNL = r'''
impl Rgb {
    #[verifier::external_body] pub fn red(&self) -> (r: f32) ensures r == self.data@[0] { unimplemented!() }
    #[verifier::external_body] pub fn green(&self) -> (r: f32) ensures r == self.data@[1] { unimplemented!() }
    #[verifier::external_body] pub fn blue(&self) -> (r: f32) ensures r == self.data@[2] { unimplemented!() }
}
pub proof fn pair_le(a: int, r: int) requires -8 <= a <= 8, 0 <= r ensures -8 * r <= a * r <= 8 * r { assert(-8 * r <= a * r <= 8 * r) by (nonlinear_arith) requires -8 <= a <= 8, 0 <= r; }
pub proof fn sq3(a: real, b: real, c: real) ensures a * a + b * b + c * c >= 0real { assert(a * a >= 0real) by (nonlinear_arith); assert(b * b >= 0real) by (nonlinear_arith); assert(c * c >= 0real) by (nonlinear_arith); }
pub open spec fn tv(n: int, v: real) -> real { (n as real) * v }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
'''
TVS = DESL[DESL.index("pub proof fn tv_step"):DESL.index("/// n times v")]


def snn_fns(n):
    lim = ["@p0.wf()", "@p0.w() > 0", "@p0.w() < 0x4000_0000 && @p0.h() < 0x4000_0000", "@p1 <= 0x400_0000"]
    de = Fn(SN, "get_delta_e", as_name="get_delta_e", ens=["r.r() >= 0real"], entry="proof { sq3(@p0.data@[0].r() - @p1.data@[0].r(), @p0.data@[1].r() - @p1.data@[1].r(), @p0.data@[2].r() - @p1.data@[2].r()); }")
    A = "@asg"
    C = "@p0.at(@p3 as int, @p4 as int)"
    bt = "b2i(@p2)"
    allk = "forall|k: int| #![trigger _f0@[k]] 0 <= k < _f0@.len() ==> keeps(*@p0, _f0@[k])"
    acc = lambda m, rng: "forall|c: int, v: real| #![trigger uni(*@p0, c, v)] uni(*@p0, c, v) && %s ==> %s@[c].r() == tv(%s, v)" % (rng, A, m)
    clo = Fn(SN, "symmetric_nearest_neighbor", clo=0, ctys=("u32", "u32"), cret="Rgb", as_name="clo0_symmetric_nearest_neighbor", consts=("PAIRS",), floaty=("acc",),
             req=lim + ["@p3 < @p0.w() && @p4 < @p0.h()"], ens=["scale_ok(*@p0, %s, r)" % C],
             entry="proof { tv_ends(1); }",
             loops=[Loop(["_n0 == @p1 + 1", "1 <= _i0 <= _n0", "_f0@.len() == %d * (_i0 - 1)" % n, allk]),
                    Loop(["_n1 == %d" % n, "0 <= _i1 <= _n1", "_i0 < _n0", "_f0@.len() == %d * (_i0 - 1) + _i1" % n, allk], head="".join("pair_le(_arr@[_i1 as int].%d as int, _i0 as int); " % j for j in range(4))),
                    Loop(["_n2 == 4", "0 <= _i2 <= _n2", "forall|c: int| #![trigger %s@[c]] 0 <= c < _i2 ==> %s@[c].r() == %s.data@[c].r()" % (A, A, C), "forall|c: int| #![trigger %s@[c]] _i2 <= c < 4 ==> %s@[c].r() == 0real" % (A, A)]),
                    Loop(["0 <= _i3 <= _n3", acc("_i3 + " + bt, "true")], head="tv_step(_i3 + %s);" % bt, after="tv_ends(_n3 + %s);" % bt),
                    Loop(["_n4 == 4", "0 <= _i4 <= _n4", acc("_i3 + %s + 1" % bt, "c < _i4"), acc("_i3 + " + bt, "c >= _i4")])])
    d = Fn(SN, "symmetric_nearest_neighbor", lift=(0,), req=lim, ens=["r.wf() && r.w() == @p0.w() && r.h() == @p0.h()", "keeps_uni(*@p0, r)", "unit_b(*@p0) ==> unit_b(r)"], tags=["collect"], inline=vops.INLINE_NEW,
           entry="broadcast use ix_div; proof { dims_bound(@p0.w(), @p0.h()); no_pixels_hint(@p0.w(), @p0.h()); ix_all(@p0.w(), @p0.h()); keeps_all(*@p0); }",
           loops=[Loop(["_n0 == @p0.px().len()", "0 <= _i0 <= _n0", "_v0@.len() == _i0", "forall|k: int| #![trigger _v0@[k]] 0 <= k < _i0 ==> scale_ok(*@p0, @p0.px()[k], _v0@[k])"],
                       head="ix_of(_i0 as int, @p0.w(), @p0.h());", ty="Rgb")])
    return [de, clo, d]


def unit_snn():
    t, n = snn_pairs()
    yield Unit("c22_snn", lambda: prelude("A") + SPEC_CALLS + KERL + UNI + SNNL + TVS + t, real=True).add(*base("A")).add(*rgb_new(), *snn_fns(n))
