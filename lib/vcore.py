"""Verus prelude and the contracts of d10-core/src/pixelbuffer.rs (C01, C02, C03, C21)."""
import rast
from weave import Fn, Loop, Unit

PB = "d10-core/src/pixelbuffer.rs"

STD = r'''
// ---- trusted: contracts of std functions and of the language
pub trait VInt: Sized + Copy {
    spec fn i(self) -> int;
    fn v_min(self, o: Self) -> (r: Self) ensures r.i() == if self.i() <= o.i() { self.i() } else { o.i() };
    fn v_max(self, o: Self) -> (r: Self) ensures r.i() == if self.i() <= o.i() { o.i() } else { self.i() };
    fn v_clamp(self, a: Self, b: Self) -> (r: Self) requires a.i() <= b.i() ensures r.i() == if self.i() < a.i() { a.i() } else if self.i() > b.i() { b.i() } else { self.i() };
}
''' + "".join(r'''
impl VInt for %s {
    open spec fn i(self) -> int { self as int }
    fn v_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
    fn v_max(self, o: Self) -> (r: Self) { if self <= o { o } else { self } }
    fn v_clamp(self, a: Self, b: Self) -> (r: Self) { if self < a { a } else if self > b { b } else { self } }
}''' % t for t in ("u32", "i32", "usize", "u64", "u8", "u16", "i64")) + r'''
pub trait VSat: Sized + Copy {
    spec fn j(self) -> int;
    spec fn lo() -> int;
    spec fn hi() -> int;
    fn v_saturating_add(self, o: Self) -> (r: Self) ensures r.j() == if self.j() + o.j() > Self::hi() { Self::hi() } else if self.j() + o.j() < Self::lo() { Self::lo() } else { self.j() + o.j() };
    fn v_saturating_sub(self, o: Self) -> (r: Self) ensures r.j() == if self.j() - o.j() > Self::hi() { Self::hi() } else if self.j() - o.j() < Self::lo() { Self::lo() } else { self.j() - o.j() };
}
''' + "".join(r'''
impl VSat for %s {
    open spec fn j(self) -> int { self as int }
    open spec fn lo() -> int { %s::MIN as int }
    open spec fn hi() -> int { %s::MAX as int }
    #[verifier::external_body]
    fn v_saturating_add(self, o: Self) -> (r: Self) { self.saturating_add(o) }
    #[verifier::external_body]
    fn v_saturating_sub(self, o: Self) -> (r: Self) { self.saturating_sub(o) }
}''' % (t, t, t) for t in ("u32", "i32", "usize")) + r'''
pub trait VExt<T: Copy> { spec fn seq(&self) -> Seq<T>; fn v_extend_from_slice(&mut self, s: &[T]) ensures final(self).seq() == old(self).seq() + s@; }
impl<T: Copy> VExt<T> for Vec<T> {
    open spec fn seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_extend_from_slice(&mut self, s: &[T]) { self.extend_from_slice(s) }
}
pub trait VCl<T> { spec fn ov(self) -> Option<T>; fn v_cloned(self) -> (r: Option<T>) ensures r == self.ov(); }
impl<'a, T: Copy> VCl<T> for Option<&'a T> {
    open spec fn ov(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
    fn v_cloned(self) -> (r: Option<T>) { match self { Some(x) => Some(*x), None => None } }
}
#[verifier::external_body]
pub fn vec_rep<T: Copy>(v: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> r@[k] == v { vec![v; n] }
#[verifier::external_body]
pub fn vec_rep2<T: Copy>(v: T, n: usize, m: usize) -> (r: Vec<Vec<T>>) ensures r@.len() == m, forall|k: int| 0 <= k < m ==> r@[k]@.len() == n, forall|k: int, l: int| 0 <= k < m && 0 <= l < n ==> r@[k]@[l] == v { vec![vec![v; n]; m] }
pub fn vdefault<C: Color>() -> (r: C) ensures r == C::dflt() { C::default() }
'''

LABS = r'''
pub trait Illuminant: Copy {}
pub trait Observer: Copy {}
#[derive(Clone, Copy)] pub struct D65 { pub u: u8 }
#[derive(Clone, Copy)] pub struct O2 { pub u: u8 }
impl Illuminant for D65 {}
impl Observer for O2 {}
''' + "".join("#[derive(Clone, Copy)]\n#[verifier::reject_recursive_types(I)]\n#[verifier::reject_recursive_types(O)]\npub struct %s<I: Illuminant, O: Observer> { pub data: [f32; 4], pub marker: core::marker::PhantomData<(I, O)> }\n" % t for t in ("Lab", "Lch"))

COLOR = r'''
/// A colour type: what pixel buffers assume of it.  The conversions are uninterpreted here.
pub trait Color: Copy {
    spec fn dflt() -> Self;
    fn default() -> (r: Self) ensures r == Self::dflt();
    spec fn transparent(self) -> bool;
    fn has_transparency(&self) -> (r: bool) ensures r == self.transparent();
    spec fn s_to_rgb(self) -> Rgb;
    fn to_rgb(&self) -> (r: Rgb) ensures r == self.s_to_rgb();
%s}
''' % ("".join("    spec fn s_to_%s(self) -> %s;\n    fn to_%s(&self) -> (r: %s) ensures r == self.s_to_%s();\n" % (m, t, m, t, m)
              for m, t in (("srgb", "Srgb"), ("hsl", "Hsl"), ("hsv", "Hsv"), ("yuv", "Yuv"), ("xyz", "Xyz"))) + "".join(
              "    spec fn s_to_%s<I: Illuminant, O: Observer>(self) -> %s<I, O>;\n    fn to_%s<I: Illuminant, O: Observer>(&self) -> (r: %s<I, O>) ensures r == self.s_to_%s::<I, O>();\n" % (m, t, m, t, m)
              for m, t in (("lab", "Lab"), ("lch", "Lch")))) + LABS + "".join(r'''
#[derive(Clone, Copy)]
pub struct %s { pub data: [f32; 4] }
''' % t for t in ("Srgb", "Hsl", "Hsv", "Yuv", "Xyz")) + r'''
#[derive(Clone, Copy)]
pub struct Rgb { pub data: [f32; 4] }
pub uninterp spec fn rgb_none() -> Rgb;
pub uninterp spec fn rgb_gray(c: Rgb) -> bool;
pub uninterp spec fn opq_t(c: [f32; 4]) -> bool;
pub uninterp spec fn opq_c(c: [f32; 4]) -> [f32; 4];
''' + "".join(r'''
impl%s Color for %s {
    uninterp spec fn dflt() -> Self;
    #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() }
    uninterp spec fn transparent(self) -> bool;
    #[verifier::external_body] fn has_transparency(&self) -> (r: bool) { unimplemented!() }
    uninterp spec fn s_to_rgb(self) -> Rgb;
    #[verifier::external_body] fn to_rgb(&self) -> (r: Rgb) { unimplemented!() }
%s%s}
''' % ("<I: Illuminant, O: Observer>" if "<" in ty else "", ty, "".join("    uninterp spec fn s_to_%s(self) -> %s;\n    #[verifier::external_body] fn to_%s(&self) -> (r: %s) { unimplemented!() }\n" % (m, t, m, t)
              for m, t in (("srgb", "Srgb"), ("hsl", "Hsl"), ("hsv", "Hsv"), ("yuv", "Yuv"), ("xyz", "Xyz"))),
              "".join("    uninterp spec fn s_to_%s<I2: Illuminant, O2: Observer>(self) -> %s<I2, O2>;\n    #[verifier::external_body] fn to_%s<I2: Illuminant, O2: Observer>(&self) -> (r: %s<I2, O2>) { unimplemented!() }\n" % (m, t, m, t)
              for m, t in (("lab", "Lab"), ("lch", "Lch")))) for ty in ("Rgb", "Srgb", "Hsl", "Hsv", "Yuv", "Xyz", "Lab<I, O>", "Lch<I, O>")) + r'''
impl Rgb {
    #[verifier::external_body]
    pub fn is_grayscale(&self) -> (r: bool) ensures r == rgb_gray(*self) { unimplemented!() }
}
'''

BUF = r'''
pub open spec fn dims_ok(w: int, h: int) -> bool { (w == 0 && h == 0) || (0 < w && 0 < h && w * h <= @MAX@) }
pub open spec fn ix(x: int, y: int, w: int) -> int { x + y * w }
impl<T: Color> PixelBuffer<T> {
    pub open spec fn w(&self) -> int { self.width as int }
    pub open spec fn h(&self) -> int { self.height as int }
    pub open spec fn px(&self) -> Seq<T> { self.data@ }
    pub open spec fn wf(&self) -> bool { self.px().len() == self.w() * self.h() && dims_ok(self.w(), self.h()) }
    pub open spec fn at(&self, x: int, y: int) -> T { self.px()[ix(x, y, self.w())] }
}
pub broadcast proof fn ix_div(x: int, y: int, w: int)
    requires 0 <= x < w, 0 <= y
    ensures #![trigger ix(x, y, w)] ix(x, y, w) % w == x, ix(x, y, w) / w == y, 0 <= ix(x, y, w), ix(x, y, w) == x + y * w, y * w >= 0, ix(x, y, w) == y * w + x
{
    assert(0 <= y * w) by (nonlinear_arith) requires 0 <= x < w, 0 <= y;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x + y * w, w, y, x);
}
pub proof fn ix_in(x: int, y: int, w: int, h: int)
    requires 0 <= x < w, 0 <= y < h
    ensures 0 <= ix(x, y, w) < w * h, ix(x, y, w) == x + y * w, 0 <= y * w <= w * h, y * w + w <= w * h, w * y == y * w
{ assert(0 <= y * w && y * w + w <= w * h && w * y == y * w) by (nonlinear_arith) requires 0 <= x < w, 0 <= y < h; }
pub proof fn ix_all(w: int, h: int)
    ensures forall|x: int, y: int| #![trigger ix(x, y, w)] 0 <= x < w && 0 <= y < h ==> 0 <= ix(x, y, w) < w * h
{ assert forall|x: int, y: int| #![trigger ix(x, y, w)] 0 <= x < w && 0 <= y < h implies 0 <= ix(x, y, w) < w * h by { ix_in(x, y, w, h); } }
/// the coordinates of index i
pub proof fn ix_of(i: int, w: int, h: int)
    requires 0 <= i < w * h, 0 < w, 0 < h
    ensures 0 <= i % w < w, 0 <= i / w < h, ix(i % w, i / w, w) == i
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, w);
    assert(0 <= i % w < w) by (nonlinear_arith) requires 0 < w;
    assert(0 <= i / w) by (nonlinear_arith) requires 0 <= i, 0 < w;
    assert(i / w < h) by (nonlinear_arith) requires i == w * (i / w) + i % w, 0 <= i % w, i < w * h, 0 < w;
    assert(w * (i / w) == (i / w) * w) by (nonlinear_arith);
}
pub proof fn dims_bound(w: int, h: int)
    requires dims_ok(w, h)
    ensures 0 <= w * h <= @MAX@, w <= @MAX@, h <= @MAX@, h * w == w * h
{
    assert(h * w == w * h) by (nonlinear_arith);
    if w > 0 { assert(w <= w * h && h <= w * h) by (nonlinear_arith) requires w > 0, h > 0; }
    else { assert(w * h == 0) by (nonlinear_arith) requires w == 0; }
}
pub proof fn no_pixels(w: int, h: int)
    requires w == 0 || h == 0
    ensures w * h == 0
{ assert(w * h == 0) by (nonlinear_arith) requires w == 0 || h == 0; }
'''

MAXV = "1073741823"


def struct_text():
    """the struct itself, from /repo"""
    for f in rast.load(PB):
        if f["k"] == "typeitem" and f["name"] == "PixelBuffer":
            t = f["t"]
            import re
            body = t[t.index("{"):]
            body = re.sub(r"//[^\n]*", "", body)
            body = re.sub(r"(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:", r"pub \1:", body)
            head = t[t.index("struct"):t.index("{")]
            return "pub " + head + body
    raise rast.Unsupported("struct PixelBuffer not found")


def max_const():
    c = rast.const(PB, "MAX_BUFFER_SIZE")
    return "pub const MAX_BUFFER_SIZE: u64 = %s;\n" % rast.ue(c["e"])


def prelude(mode):
    vp = ("/// any panic; mode A: a panic ends the run, nothing more is promised\n#[verifier::external_body]\npub fn vpanic() -> ! { panic!() }\n" if mode == "A" else
          "/// any panic; mode B: unreachable for valid arguments\n#[verifier::external_body]\npub fn vpanic() -> ! requires false { panic!() }\n")
    return vp + STD + COLOR + struct_text() + "\n" + max_const() + BUF.replace("@MAX@", MAXV) + MAXCHECK + CLONE


MAXCHECK = "/// the documented maximum\npub proof fn max_is_documented() ensures MAX_BUFFER_SIZE == %s {}\n" % MAXV
CLONE = r'''
impl<T: Color> PixelBuffer<T> {
    /// derived Clone of a struct of Copy pixels (trusted)
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
'''

WH = "dims_bound(self.w(), self.h());"
VALID = "dims_ok(@p0 as int, @p1 as int)"


def both(mode, c, breq):
    """in mode B the documented precondition is required and no panic may be reachable"""
    if mode == "B":
        c.req = tuple(c.req) + tuple(breq)
    return c


ENUM = (("enumerate", (PB, "enumerate", "PixelBuffer")), ("enumerate_mut", (PB, "enumerate_mut", "PixelBuffer")))


def iter_adaptor(name):
    """into_rgb() etc: the closure of `self.<field>.next().map(CLOSURE)` in color/iter.rs"""
    def go():
        rel = "d10-core/src/color/iter.rs"
        ctor = None
        for f in rast.load(rel):
            if f["k"] == "fnitem" and f["name"] == name:
                ctor = f
                break
        if ctor is None: raise rast.Unsupported("%s not found" % name)
        ty = (ctor["ret"] or "").strip().split("<")[0]
        for f in rast.load(rel):
            if f["k"] == "fnitem" and f["name"] == "next" and f["owner"] == ty:
                sts = f["body"]["st"]
                # `let x = e; x` is `e`
                if len(sts) == 2 and sts[0]["k"] == "let" and sts[0].get("e") and sts[1]["k"] == "expr" and sts[1]["e"].get("p") == sts[0]["p"].get("n"): sts = [dict(sts[1], e=sts[0]["e"])]
                if len(sts) == 1 and sts[0]["k"] == "expr":
                    e = sts[0]["e"]
                    if e["k"] == "return": e = e["e"]
                    if e["k"] == "mcall" and e["m"] == "map" and e["e"]["k"] == "mcall" and e["e"]["m"] == "next":
                        return e["a"][0]
        raise rast.Unsupported("shape of the iterator of %s" % name)
    return go


def calls_log(n, item):
    return "old(@p{0}).log() + Seq::new({1}, |i: int| {2})".format(*n) if False else ""


def new_fns(mode):
    call_i = "((i % @p0 as int) as u32, (i / @p0 as int) as u32, {v})"
    return [
        Fn(PB, "is_valid_buffer_size", ens=["r == dims_ok(@p0 as int, @p1 as int)"],
           entry="proof { assert(@p0 as int * @p1 as int <= u64::MAX) by (nonlinear_arith) requires @p0 <= u32::MAX, @p1 <= u32::MAX; assert(@p1 as int * @p0 as int == @p0 as int * @p1 as int) by (nonlinear_arith); no_pixels_hint(@p0 as int, @p1 as int); }"),
        both(mode, Fn(PB, "validate_size", ens=[VALID]), [VALID]),
        both(mode, Fn(PB, "new", "PixelBuffer", ens=["r.wf()", "r.w() == @p0 && r.h() == @p1", "forall|k: int| 0 <= k < r.px().len() ==> r.px()[k] == T::dflt()"]), [VALID]),
        both(mode, Fn(PB, "new_with_color", "PixelBuffer", ens=["r.wf()", "r.w() == @p0 && r.h() == @p1", "forall|k: int| 0 <= k < r.px().len() ==> r.px()[k] == @p2"],
                      entry="proof { if dims_ok(@p0 as int, @p1 as int) { dims_bound(@p0 as int, @p1 as int); } }"), [VALID]),
        both(mode, Fn(PB, "new_from_raw", "PixelBuffer", ens=["r.wf()", "r.w() == @p0 && r.h() == @p1", "r.px() == @p2@"],
                      entry="proof { assert(@p0 as int * @p1 as int <= u64::MAX) by (nonlinear_arith) requires @p0 <= u32::MAX, @p1 <= u32::MAX; assert(@p1 as int * @p0 as int == @p0 as int * @p1 as int) by (nonlinear_arith); }"), [VALID, "@p2@.len() == @p0 * @p1"]),
        both(mode, Fn(PB, "new_from_func", "PixelBuffer", ens=["r.wf()", "r.w() == @p0 && r.h() == @p1",
             "final(@p2).log() =~= old(@p2).log() + Seq::new(r.px().len(), |i: int| %s)" % call_i.format(v="r.px()[i]")],
             entry="let ghost l0 = @p2.log(); proof { if dims_ok(@p0 as int, @p1 as int) { dims_bound(@p0 as int, @p1 as int); } }",
             loops=[Loop(["_n0 == @p0 * @p1", "_i0 <= _n0", "_v0@.len() == _i0", "@p2.log() =~= l0 + Seq::new(_i0 as nat, |i: int| %s)" % call_i.format(v="_v0@[i]")],
                         head="if @p0 == 0 { no_pixels(@p0 as int, @p1 as int); }")], tags=["collect"]), [VALID]),
        both(mode, Fn(PB, "try_new_from_func", "PixelBuffer", ens=[
             "r.is_ok() ==> r->Ok_0.wf() && r->Ok_0.w() == @p0 && r->Ok_0.h() == @p1",
             "r.is_ok() ==> final(@p2).log() =~= old(@p2).log() + Seq::new(r->Ok_0.px().len(), |i: int| %s)" % call_i.format(v="Ok::<T, E>(r->Ok_0.px()[i])"),
             "r.is_err() ==> exists|k: int, v: Seq<T>, e: E| 0 <= k < @p0 * @p1 && v.len() == k && #[trigger] called_until(final(@p2).log(), old(@p2).log(), k, v, @p0 as int, e) && r->Err_0 == e"],
             entry="let ghost l0 = @p2.log(); let ghost mut kk = 0int; proof { if dims_ok(@p0 as int, @p1 as int) { dims_bound(@p0 as int, @p1 as int); } }",
             loops=[Loop(["_n0 == @p0 * @p1", "_i0 <= _n0", "_e0.is_none() ==> _v0@.len() == _i0", "_e0.is_some() ==> _v0@.len() == kk && kk < _i0",
                          "_e0.is_none() ==> @p2.log() =~= l0 + Seq::new(_i0 as nat, |i: int| %s)" % call_i.format(v="Ok::<T, E>(_v0@[i])"),
                          "match _e0 { Some(e) => called_until(@p2.log(), l0, kk, _v0@, @p0 as int, e), None => true }"],
                         head="if @p0 == 0 { no_pixels(@p0 as int, @p1 as int); } kk = _v0@.len() as int;",
                         after="if _e0.is_some() { assert(called_until(@p2.log(), l0, kk, _v0@, @p0 as int, _e0->Some_0)); }")], tags=["try_collect"]), [VALID]),
    ]


SPEC_CALLS = r'''
/// the calls of a fallible fill function that fails at pixel k: in row-major order, all before it succeeded with v, and the k-th returned e
pub open spec fn called_until<T, E>(log: Seq<(u32, u32, Result<T, E>)>, l0: Seq<(u32, u32, Result<T, E>)>, k: int, v: Seq<T>, w: int, e: E) -> bool {
    log =~= l0 + Seq::new(k as nat, |i: int| ((i % w) as u32, (i / w) as u32, Ok::<T, E>(v[i]))).push(((k % w) as u32, (k / w) as u32, Err::<T, E>(e)))
}
pub proof fn no_pixels_hint(w: int, h: int)
    ensures (w == 0 || h == 0) ==> w * h == 0, w > 0 && h > 0 ==> w * h > 0
{ if w == 0 || h == 0 { no_pixels(w, h); } else if w > 0 && h > 0 { assert(w * h > 0) by (nonlinear_arith) requires w > 0, h > 0; } }
'''


def unit_new(mode):
    return Unit("c01_" + mode, lambda m=mode: prelude(mode) + SPEC_CALLS).add(*new_fns(mode))


NONEMPTY = "self.w() > 0"
CL = "(if {v} < 0 {{ 0 }} else if {v} > {m} - 1 {{ {m} - 1 }} else {{ {v} as int }})"
CLX = CL.format(v="@p1", m="self.w()")
CLY = CL.format(v="@p2", m="self.h()")
INB = "@p1 < self.w() && @p2 < self.h()"

ENUM_SRC = """
impl<T: Color> PixelBuffer<T> {
    pub fn enumerate_all(&self) -> Vec<(u32, u32, T)> { self.enumerate().collect() }
}
"""


def getters():
    return [
        Fn(PB, "width", "PixelBuffer", ens=["r == self.w()"]),
        Fn(PB, "height", "PixelBuffer", ens=["r == self.h()"]),
        Fn(PB, "is_empty", "PixelBuffer", req=["self.wf()"], ens=["r == (self.px().len() == 0)"], entry="proof { dims_bound(self.w(), self.h()); no_pixels_hint(self.w(), self.h()); }"),
        Fn(PB, "data", "PixelBuffer", ens=["r@ == self.px()"]),
    ]


def pixel_fns(mode):
    ent = "proof { dims_bound(self.w(), self.h()); if %s { ix_in(@p1 as int, @p2 as int, self.w(), self.h()); } }" % INB
    return [
        both(mode, Fn(PB, "get_pixel", "PixelBuffer", req=["self.wf()"], ens=[INB, "*r == self.at(@p1 as int, @p2 as int)"], entry=ent), [INB]),
        both(mode, Fn(PB, "put_pixel", "PixelBuffer", req=["old(self).wf()"], ens=[INB.replace("self", "old(self)"), "final(self).w() == old(self).w() && final(self).h() == old(self).h()",
             "final(self).px() == old(self).px().update(ix(@p1 as int, @p2 as int, old(self).w()), @p3)", "final(self).wf()"], entry=ent), [INB.replace("self", "old(self)")]),
        Fn(PB, "is_in_image", "PixelBuffer", req=["self.wf()"], ens=["r == (0 <= @p1 < self.w() && 0 <= @p2 < self.h())"], entry="proof { dims_bound(self.w(), self.h()); }"),
        Fn(PB, "get_pixel_clamped", "PixelBuffer", req=["self.wf()", NONEMPTY], ens=["*r == self.at(%s, %s)" % (CLX, CLY)], entry="proof { dims_bound(self.w(), self.h()); }"),
        Fn(PB, "get_pixel_optional", "PixelBuffer", req=["self.wf()"],
           ens=["r.is_some() == (0 <= @p1 < self.w() && 0 <= @p2 < self.h())", "r.is_some() ==> *(r->Some_0) == self.at(@p1 as int, @p2 as int)"],
           entry="proof { dims_bound(self.w(), self.h()); if 0 <= @p1 < self.w() && 0 <= @p2 < self.h() { ix_in(@p1 as int, @p2 as int, self.w(), self.h()); } }"),
    ]


def enumerate_fn():
    return Fn(None, "enumerate_all", "PixelBuffer", src=ENUM_SRC, resolve=ENUM, req=["self.wf()"],
              ens=["r@ =~= Seq::new(self.px().len(), |i: int| ((i % self.w()) as u32, (i / self.w()) as u32, self.px()[i]))"],
              entry="proof { dims_bound(self.w(), self.h()); no_pixels_hint(self.w(), self.h()); }", tags=["collect"],
              loops=[Loop(["_n0 == self.px().len()", "_i0 <= _n0", "_v0@ =~= Seq::new(_i0 as nat, |i: int| ((i % self.w()) as u32, (i / self.w()) as u32, self.px()[i]))"])])


def unit_pixels(mode):
    u = Unit("c02_" + mode, lambda: prelude(mode) + SPEC_CALLS).add(*getters()).add(*pixel_fns(mode))
    if mode == "A": u.add(enumerate_fn())
    return u


# ------------------------------------------------------------------ C03
def item(px, i, v, enum):
    return "((%s %% @W) as u32, (%s / @W) as u32, %s[%s], %s)" % (i, i, px, i, v) if enum else "(%s[%s], %s)" % (px, i, v)


def map_fn(name, enum, fallible):
    # @p1 is the callable
    def calls(n, v, w="self.w()", px="self.px()"):
        return ("Seq::new(%s as nat, |i: int| %s)" % (n, item(px, "i", v, enum))).replace("@W", w)
    if not fallible:
        return Fn(PB, name, "PixelBuffer", req=["self.wf()"], resolve=ENUM, tags=["collect"],
                  ens=["r.wf()", "r.w() == self.w() && r.h() == self.h()", "final(@p1).log() =~= old(@p1).log() + " + calls("self.px().len()", "r.px()[i]")],
                  entry="let ghost l0 = @p1.log(); proof { dims_bound(self.w(), self.h()); no_pixels_hint(self.w(), self.h()); }",
                  loops=[Loop(["_n0 == self.px().len()", "_i0 <= _n0", "_v0@.len() == _i0", "@p1.log() =~= l0 + " + calls("_i0", "_v0@[i]")])])
    T = "T" if enum else "R"
    ok = "Ok::<%s, E>(%%s)" % T
    until = "l0 + " + calls("kk", ok % "vv[i]") + ".push(" + item("self.px()", "kk", "Err::<%s, E>(ee)" % T, enum).replace("@W", "self.w()") + ")"
    return Fn(PB, name, "PixelBuffer", req=["self.wf()"], resolve=ENUM, tags=["try_collect"],
              ens=["r is Ok ==> r->Ok_0.wf() && r->Ok_0.w() == self.w() && r->Ok_0.h() == self.h()",
                   "r is Ok ==> final(@p1).log() =~= old(@p1).log() + " + calls("self.px().len()", ok % "r->Ok_0.px()[i]"),
                   "r is Err ==> exists|kk: int, vv: Seq<%s>, ee: E| 0 <= kk < self.px().len() && vv.len() == kk && #[trigger] wit(kk, vv, ee) && r->Err_0 == ee && final(@p1).log() =~= " % T + until.replace("l0", "old(@p1).log()")],
              entry="let ghost l0 = @p1.log(); let ghost mut kk = 0int; proof { dims_bound(self.w(), self.h()); no_pixels_hint(self.w(), self.h()); }",
              loops=[Loop(["_n0 == self.px().len()", "_i0 <= _n0", "_e0.is_none() ==> _v0@.len() == _i0", "_e0.is_some() ==> _v0@.len() == kk && kk < _i0",
                           "_e0.is_none() ==> @p1.log() =~= l0 + " + calls("_i0", ok % "_v0@[i]"),
                           "_e0.is_some() ==> @p1.log() =~= " + until.replace("vv[", "_v0@[").replace("ee)", "_e0->Some_0)")],
                          head="kk = _v0@.len() as int;", after="if _e0.is_some() { assert(wit(kk, _v0@, _e0->Some_0)); }")])


def mod_fn(name, enum, fallible):
    S0 = "old(self)"

    def calls(n, v, px="d0"):
        return ("Seq::new(%s as nat, |i: int| %s)" % (n, item(px, "i", v, enum))).replace("@W", "w0")
    ent = "let ghost l0 = @p1.log(); let ghost d0 = self.px(); let ghost w0 = self.w(); let ghost h0 = self.h(); proof { dims_bound(self.w(), self.h()); no_pixels_hint(self.w(), self.h()); }"

    def pub(t):
        return t.replace("d0", "old(self).px()").replace("w0", "old(self).w()").replace("l0", "old(@p1).log()")
    same = "forall|j: int| _i0 <= j < d0.len() ==> self.px()[j] == d0[j]"
    base = ["_n0 == d0.len()", "_i0 <= _n0", "self.px().len() == d0.len()", "self.w() == w0 && self.h() == h0", same]
    dims = "final(self).w() == old(self).w() && final(self).h() == old(self).h() && final(self).wf()"
    if not fallible:
        return Fn(PB, name, "PixelBuffer", req=["old(self).wf()"], resolve=ENUM, tags=["for"], ens=[dims, pub("final(@p1).log() =~= l0 + " + calls("d0.len()", "final(self).px()[i]"))],
                  entry=ent, loops=[Loop(base + ["@p1.log() =~= l0 + " + calls("_i0", "self.px()[i]")])])
    ok = "Ok::<T, E>(%s)"
    until = "l0 + " + calls("kk", ok % "final(self).px()[i]") + ".push(" + item("d0", "kk", "Err::<T, E>(r->Err_0)", enum).replace("@W", "w0") + ")"
    return Fn(PB, name, "PixelBuffer", req=["old(self).wf()"], resolve=ENUM, tags=["for"],
              ens=[dims, "r is Ok ==> " + pub("final(@p1).log() =~= l0 + " + calls("d0.len()", ok % "final(self).px()[i]")),
                   "r is Err ==> exists|kk: int| 0 <= kk < old(self).px().len() && #[trigger] witk(kk) && (forall|j: int| kk <= j < old(self).px().len() ==> final(self).px()[j] == old(self).px()[j]) && " + pub("final(@p1).log() =~= " + until)],
              entry=ent, loops=[Loop(base + ["@p1.log() =~= l0 + " + calls("_i0", ok % "self.px()[i]")], head="assert(witk(_i0 as int));")])


WIT = r'''
pub open spec fn wit<A, E>(k: int, v: Seq<A>, e: E) -> bool { true }
pub open spec fn witk(k: int) -> bool { true }
'''


def conv_fn(m):
    g = "::<I, O>" if m in ("lab", "lch") else ""
    return Fn(PB, "to_" + m, "PixelBuffer", req=["self.wf()"], adaptors=[("into_" + m, iter_adaptor("into_" + m))], tags=["collect"],
              ens=["r.wf()", "r.w() == self.w() && r.h() == self.h()", "forall|i: int| 0 <= i < self.px().len() ==> r.px()[i] == self.px()[i].s_to_%s%s()" % (m, g)],
              entry="proof { dims_bound(self.w(), self.h()); }",
              loops=[Loop(["_n0 == self.px().len()", "_i0 <= _n0", "_v0@.len() == _i0", "forall|i: int| 0 <= i < _i0 ==> _v0@[i] == self.px()[i].s_to_%s%s()" % (m, g)])])


def unit_maps(mode):
    u = Unit("c03", lambda: prelude("A") + SPEC_CALLS + WIT).add(*getters())
    for n, e, f in (("map_colors", False, False), ("try_map_colors", False, True), ("map_colors_enumerated", True, False), ("try_map_colors_enumerated", True, True)):
        u.add(map_fn(n, e, f))
    for n, e, f in (("mod_colors", False, False), ("try_mod_colors", False, True), ("mod_colors_enumerated", True, False), ("try_mod_colors_enumerated", True, True)):
        u.add(mod_fn(n, e, f))
    for m in ("rgb", "srgb", "hsl", "hsv", "yuv", "xyz", "lab", "lch"):
        u.add(conv_fn(m))
    return u


def tol_fns():
    any_ = Fn(PB, "has_transparency", "PixelBuffer", req=["self.wf()"], ens=["r == exists|k: int| 0 <= k < self.px().len() && (#[trigger] self.px()[k]).transparent()"], tags=["any"],
              loops=[Loop(["_n0 == self.px().len()", "_i0 <= _n0", "_b0 ==> exists|k: int| 0 <= k < _i0 && (#[trigger] self.px()[k]).transparent()", "!_b0 ==> forall|k: int| 0 <= k < _i0 ==> !(#[trigger] self.px()[k]).transparent()"])])
    all_ = Fn(PB, "is_grayscale", "PixelBuffer", req=["self.wf()"], ens=["r == forall|k: int| 0 <= k < self.px().len() ==> rgb_gray(#[trigger] self.px()[k])"], tags=["all"],
              loops=[Loop(["_n0 == self.px().len()", "_i0 <= _n0", "_b0 ==> forall|k: int| 0 <= k < _i0 ==> rgb_gray(#[trigger] self.px()[k])", "!_b0 ==> exists|k: int| 0 <= k < _i0 && !rgb_gray(#[trigger] self.px()[k])"])])
    return [any_, all_]


def unit_tol(mode):
    return Unit("c21", lambda: prelude("A")).add(*tol_fns())
