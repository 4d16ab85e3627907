"""Contracts of sample packing and unpacking (C16, C17): what encoders are handed and what decoded samples become, over the reals."""
import re
import rast, vcore, vcol
from rast import Unsupported
from weave import Fn, Loop, Unit
from vcol import RGB, SRGB, MOD

UT, PNG, BMP, ICO = ("d10-codecs/src/%s.rs" % x for x in ("utils", "png", "bmp", "ico"))

CT = r'''
pub trait Color: Copy { spec fn dflt() -> Self; fn default() -> (r: Self) ensures r == Self::dflt(); }
''' + "".join("impl Color for %s { uninterp spec fn dflt() -> Self; #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }\n" % t for t in ("Rgb", "Srgb")) + r'''
impl Rgb { #[verifier::external_body] pub fn to_hsl(&self) -> (r: Hsl) { unimplemented!() }
    #[verifier::external_body] pub fn max(&self) -> (r: f32) { unimplemented!() }
    #[verifier::external_body] pub fn min(&self) -> (r: f32) { unimplemented!() } }
impl Hsl { #[verifier::external_body] pub fn saturation(&self) -> (r: f32) { unimplemented!() } }
// ---- trusted: contracts of std functions
pub trait VBe { spec fn be(self) -> Seq<u8>; fn v_to_be_bytes(self) -> (r: [u8; 2]) ensures r@ == self.be(); }
impl VBe for u16 { open spec fn be(self) -> Seq<u8> { seq![(self as int / 256) as u8, (self as int % 256) as u8] } #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() } }
#[verifier::external_body] pub fn v_from_be(v: [u8; 2]) -> (r: u16) ensures r as int == v@[0] as int * 256 + v@[1] as int { u16::from_be_bytes(v) }
#[verifier::external_body] pub fn v_from_ne(v: [u8; 2]) -> (r: u16) ensures r as int == v@[1] as int * 256 + v@[0] as int { u16::from_ne_bytes(v) }
pub open spec fn nchunks(n: int, k: int) -> int { (n + k - 1) / k }
#[verifier::external_body] pub fn v_chunks_len(n: usize, k: usize) -> (r: usize) requires k > 0 ensures r as int == nchunks(n as int, k as int) { n.div_ceil(k) }
#[verifier::external_body] pub fn v_chunk<T>(s: &Vec<T>, k: usize, i: usize) -> (r: &[T]) requires k > 0, (i as int) * (k as int) < s@.len()
    ensures r@ =~= s@.subrange(i as int * k as int, if i as int * k as int + k as int <= s@.len() { i as int * k as int + k as int } else { s@.len() as int }) { unimplemented!() }
#[verifier::external_body] pub struct Msg { u: u8 }
#[verifier::external_body] pub fn v_format() -> (r: Msg) { unimplemented!() }
'''

Q = r'''
// ---- samples
/// value x of a channel as a sample of 0..m: the nearest one, ties downwards, kept in range
pub open spec fn qs(x: real, m: int) -> int { isat(rceil(x * (m as real) - 1real / 2real), 0, m) }
pub open spec fn luma(d: [f32; 4]) -> real { ch(d, 0) * (212656real / 1000000real) + ch(d, 1) * (715158real / 1000000real) + ch(d, 2) * (72186real / 1000000real) }
/// channel k of the stored pixel
pub open spec fn sm(d: [f32; 4], k: int) -> real { if k == 3 { c01(ch(d, 3)) } else { c01(gam(ch(d, k))) } }
pub open spec fn sg(d: [f32; 4]) -> real { c01(gam(luma(d))) }
pub open spec fn s8(x: real) -> u8 { qs(x, 255) as u8 }
pub open spec fn hi(x: real) -> u8 { (qs(x, 65535) / 256) as u8 }
pub open spec fn lo(x: real) -> u8 { (qs(x, 65535) % 256) as u8 }
pub open spec fn argb(a: u8, r: u8, g: u8, b: u8) -> u32 { (a as u32) << 24 | (r as u32) << 16 | (g as u32) << 8 | (b as u32) }
/// alpha in the highest byte, blue in the lowest
pub proof fn argb_bytes(a: u8, r: u8, g: u8, b: u8) ensures argb(a, r, g, b) == a as int * 16777216 + r as int * 65536 + g as int * 256 + b as int
{ assert((a as u32) << 24 | (r as u32) << 16 | (g as u32) << 8 | (b as u32) == add(add(add(mul(a as u32, 16777216u32), mul(r as u32, 65536u32)), mul(g as u32, 256u32)), b as u32)) by (bit_vector); }
'''

# name -> (channels, 16 bit?, expressions of the samples)
PACK = {"to_l8_vec": ("g", 8), "to_la8_vec": ("ga", 8), "to_rgb8_vec": ("rgb", 8), "to_rgba8_vec": ("rgba", 8),
        "to_l16_be_vec": ("g", 16), "to_la16_be_vec": ("ga", 16), "to_rgb16_be_vec": ("rgb", 16), "to_rgba16_be_vec": ("rgba", 16)}
SAMP = {"g": "sg({d})", "r": "sm({d}, 0)", "b": "sm({d}, 2)", "a": "sm({d}, 3)"}


def samples(kind):
    """expressions of the samples of one pixel"""
    if kind.startswith("g"): return ["sg({d})"] + ["sm({d}, 3)"] * (len(kind) - 1)
    return ["sm({d}, %d)" % i for i in range(len(kind))]


def packed_spec(kind, bits):
    """spec fn: the bytes of pixel i with data d"""
    ss = samples(kind)
    n = len(ss) * bits // 8
    parts = []
    for j, s in enumerate(ss):
        s = s.format(d="d")
        parts += ["o[%d * i + %d] == s8(%s)" % (n, j, s)] if bits == 8 else ["o[%d * i + %d] == hi(%s)" % (n, 2 * j, s), "o[%d * i + %d] == lo(%s)" % (n, 2 * j + 1, s)]
    return "pub open spec fn at_%s%d(o: Seq<u8>, i: int, d: [f32; 4]) -> bool { %s }\n/// the whole image\npub open spec fn is_%s%d(o: Seq<u8>, p: Seq<Rgb>) -> bool { o.len() == %d * p.len() && forall|i: int| 0 <= i < p.len() ==> at_%s%d(o, i, (#[trigger] p[i]).data) }\n" % (
        kind, bits, " && ".join(parts), kind, bits, n, kind, bits), n


def colour_fns():
    acc = [Fn(RGB, n, "Rgb", ens=["r == self.data@[%d]" % i]) for i, n in enumerate(("red", "green", "blue"))] + [Fn(RGB, "alpha", "Rgb", trait="Color", ens=["r == self.data@[3]"])]
    acc += [Fn(SRGB, n, "Srgb", ens=["r == self.data@[%d]" % i]) for i, n in enumerate(("red", "green", "blue"))] + [Fn(SRGB, "alpha", "Srgb", trait="Color", ens=["r == self.data@[3]"])]
    acc += [Fn(SRGB, "new", "Srgb", ens=["ch(r.data, 0) == c01(@p0.r()) && ch(r.data, 1) == c01(@p1.r()) && ch(r.data, 2) == c01(@p2.r())", "ch(r.data, 3) == 1real"])]
    acc += [Fn(RGB, "to_gray_with_intensity", "Rgb", ens=["@p1 is Rec709Luma ==> ch(r.data, 0) == luma(self.data) && ch(r.data, 1) == luma(self.data) && ch(r.data, 2) == luma(self.data)", "r.data@[3] == self.data@[3]"]),
            Fn(RGB, "to_gray", "Rgb", ens=["ch(r.data, 0) == luma(self.data) && ch(r.data, 1) == luma(self.data) && ch(r.data, 2) == luma(self.data)", "r.data@[3] == self.data@[3]"])]
    return acc


def quant_fns():
    return [Fn(UT, "as_u8", ens=["r as int == qs(@p0.r(), 255)"]), Fn(UT, "as_u16", ens=["r as int == qs(@p0.r(), 65535)"]),
            Fn(UT, "as_u8_floor", ens=["r as int == isat(rtrunc(rclamp(@p0.r() * 255real, 0real, 255real)), 0, 255)"]),
            Fn(UT, "from_u8", ens=["r.r() == (@p0 as int as real) / 255real"]), Fn(UT, "from_u16_be", ens=["r.r() == ((@p0@[0] as int * 256 + @p0@[1] as int) as real) / 65535real"]),
            Fn(UT, "from_u16_ne", ens=["r.r() == ((@p0@[1] as int * 256 + @p0@[0] as int) as real) / 65535real"])]


def be(b):
    def f(n):
        if n.get("k") == "call" and n["f"].get("k") == "path" and n["f"]["p"].replace(" ", "") in ("u16::from_be_bytes", "u16::from_ne_bytes"):
            return rast.call("v_from_be" if "be_bytes" in n["f"]["p"] else "v_from_ne", *n["a"])
        return n
    return rast.rewrite(b, f)


def pack_fn(name):
    kind, bits = PACK[name]
    n = len(kind) * bits // 8
    P = "@p0.px()"
    return Fn(UT, name, req=["@p0.wf()"], ens=["is_%s%d(r@, %s)" % (kind, bits, P)], entry="proof { dims_bound(@p0.w(), @p0.h()); }", tags=["for"],
              loops=[Loop(["_n0 == %s.len()" % P, "0 <= _i0 <= _n0", "@push@.len() == %d * _i0" % n, "forall|i: int| 0 <= i < _i0 ==> at_%s%d(@push@, i, (#[trigger] %s[i]).data)" % (kind, bits, P)])])



def unit_pack():
    spec = "".join(packed_spec(*PACK[n])[0] for n in PACK)
    yield Unit("c17p", lambda: vcol.GAM0 + vcol.LG + vcore_prelude() + intensity() + Q + spec, real=True).add(*packers(PACK))


def setsub(f, s):
    f.subst = s
    return f


def vcore_prelude():
    return ("#[verifier::external_body]\npub fn vpanic() -> ! requires false { panic!() }\n" + vcore.STD + vcol.TYPES + CT + vcore.struct_text() + "\n" + vcore.max_const() + vcore.BUF.replace("@MAX@", vcore.MAXV) + vcore.MAXCHECK + vcore.CLONE + vcore.SPEC_CALLS)


def intensity():
    for f in rast.load(RGB):
        if f["k"] == "typeitem" and f["name"] == "Intensity":
            return "pub " + re.sub(r"//[^\n]*", "", f["t"][f["t"].index("enum"):]) + "\npub use Intensity::*;\n"
    raise Unsupported("enum Intensity not found")


# ------------------------------------------------------------------ C16
QL = r'''
pub open spec fn re(n: int) -> real { n as real }
pub proof fn qs_nearest(x: real, m: int)
    requires m > 0
    ensures 0 <= qs(x, m) <= m, unit(x) ==> near(qs(x, m) as real, x * (m as real), 1real / 2real)
{
    let y = x * (m as real);
    if unit(x) { assert(0real <= y <= m as real) by (nonlinear_arith) requires 0real <= x <= 1real, m > 0, y == x * (m as real); }
}
/// no other sample is nearer
pub proof fn qs_best(x: real, m: int)
    requires m > 0, unit(x)
    ensures forall|n: int| 0 <= n <= m ==> rabs(qs(x, m) as real - x * (m as real)) <= rabs(#[trigger] re(n) - x * (m as real))
{ qs_nearest(x, m); assert forall|n: int| 0 <= n <= m implies rabs(qs(x, m) as real - x * (m as real)) <= rabs(#[trigger] re(n) - x * (m as real)) by { if n > qs(x, m) { assert(n as real >= qs(x, m) as real + 1real); } else if n < qs(x, m) { assert(n as real <= qs(x, m) as real - 1real); } } }
pub proof fn qs_monotone(x: real, y: real, m: int)
    requires m > 0, x <= y
    ensures qs(x, m) <= qs(y, m)
{
    let (a, b) = (x * (m as real), y * (m as real));
    assert(a <= b) by (nonlinear_arith) requires x <= y, m > 0, a == x * (m as real), b == y * (m as real);
}
pub proof fn qs_exact(x: real, n: int, m: int)
    requires 0 <= n <= m, m > 0, x == (n as real) / (m as real)
    ensures qs(x, m) == n, unit(x)
{
    assert(x * (m as real) == n as real) by (nonlinear_arith) requires x == (n as real) / (m as real), m > 0;
    assert(0real <= x <= 1real) by (nonlinear_arith) requires x * (m as real) == n as real, 0 <= n <= m, m > 0;
}
pub proof fn sample_back(x: real, n: int, m: int)
    requires 0 <= n <= m, m > 0, x == (n as real) / (m as real)
    ensures qs(x, m) == n, unit(x), c01(gam(c01(lin(x)))) == x, c01(x) == x, unit(lin(x))
{ qs_exact(x, n, m); transfer_range(x); gam_lin(x); }
'''
TH16 = """
fn colour8(cr: u8, cg: u8, cb: u8, ca: u8) -> (u8, u8, u8, u8) { let c = Srgb::new_with_alpha(from_u8(cr), from_u8(cg), from_u8(cb), from_u8(ca)).to_rgb().to_srgb(); (as_u8(c.red()), as_u8(c.green()), as_u8(c.blue()), as_u8(c.alpha())) }
fn colour16(cr: [u8; 2], cg: [u8; 2], cb: [u8; 2], ca: [u8; 2]) -> (u16, u16, u16, u16) { let c = Srgb::new_with_alpha(from_u16_be(cr), from_u16_be(cg), from_u16_be(cb), from_u16_be(ca)).to_rgb().to_srgb(); (as_u16(c.red()), as_u16(c.green()), as_u16(c.blue()), as_u16(c.alpha())) }
fn gray8(v: u8) -> u8 { let c = Srgb::new(from_u8(v), from_u8(v), from_u8(v)).to_rgb().to_gray().to_srgb(); as_u8(c.red()) }
fn gray16(v: [u8; 2]) -> u16 { let c = Srgb::new(from_u16_be(v), from_u16_be(v), from_u16_be(v)).to_rgb().to_gray().to_srgb(); as_u16(c.red()) }
fn order8(x: f32, y: f32) -> (u8, u8) { (as_u8(x), as_u8(y)) }
fn order16(x: f32, y: f32) -> (u16, u16) { (as_u16(x), as_u16(y)) }
fn nearest8(x: f32) -> u8 { as_u8(x) }
fn nearest16(x: f32) -> u16 { as_u16(x) }
"""


def th16():
    b8 = lambda p: "sample_back((@p%d as int as real) / 255real, @p%d as int, 255); " % (p, p)
    w = lambda p: "(@p%d@[0] as int * 256 + @p%d@[1] as int)" % (p, p)
    b16 = lambda p: "sample_back((%s as real) / 65535real, %s, 65535); " % (w(p), w(p))
    return [Fn(None, "colour8", src=TH16, ens=["r.0 == @p0 && r.1 == @p1 && r.2 == @p2 && r.3 == @p3"], entry="proof { " + b8(0) + b8(1) + b8(2) + b8(3) + "}"),
            Fn(None, "colour16", src=TH16, ens=["r.0 == %s && r.1 == %s && r.2 == %s && r.3 == %s" % tuple(map(w, range(4)))], entry="proof { " + b16(0) + b16(1) + b16(2) + b16(3) + "}"),
            Fn(None, "gray8", src=TH16, ens=["r == @p0"], entry="proof { " + b8(0) + "}"), Fn(None, "gray16", src=TH16, ens=["r as int == %s" % w(0)], entry="proof { " + b16(0) + "}"),
            Fn(None, "order8", src=TH16, req=["@p0.r() <= @p1.r()"], ens=["r.0 <= r.1"], entry="proof { qs_monotone(@p0.r(), @p1.r(), 255); }"),
            Fn(None, "order16", src=TH16, req=["@p0.r() <= @p1.r()"], ens=["r.0 <= r.1"], entry="proof { qs_monotone(@p0.r(), @p1.r(), 65535); }"),
            Fn(None, "nearest8", src=TH16, req=["unit(@p0.r())"], ens=["forall|n: int| 0 <= n <= 255 ==> rabs(r as int as real - @p0.r() * 255real) <= rabs(#[trigger] re(n) - @p0.r() * 255real)"], entry="proof { qs_best(@p0.r(), 255); }"),
            Fn(None, "nearest16", src=TH16, req=["unit(@p0.r())"], ens=["forall|n: int| 0 <= n <= 65535 ==> rabs(r as int as real - @p0.r() * 65535real) <= rabs(#[trigger] re(n) - @p0.r() * 65535real)"], entry="proof { qs_best(@p0.r(), 65535); }")]


def unit16():
    yield Unit("c16", lambda: vcol.POW + vcol.GAM + vcore_prelude() + intensity() + Q + QL, real=True).add(*vcol.gamma_fns()).add(*[f for f in vcol.srgb_fns() if f.name in ("to_srgb", "new_with_alpha", "to_rgb")]).add(*colour_fns()).add(
        *[setsub(f, (be,)) for f in quant_fns()]).add(*th16())


# ------------------------------------------------------------------ C17: encoders
VALID = "valid_size(@p0 as int, @p1 as int)"
ERRS = r'''
#[verifier::external_body] pub struct IoErr { u: u8 }
pub enum EncodingError { IoError(IoErr), Encoding(Msg) }
pub enum DecodingError { IoError(IoErr), Decoding(Msg), InvalidBufferSize { width: u32, height: u32 } }
pub struct DecodedImage { pub buffer: PixelBuffer<Rgb> }
pub trait Write {} pub trait Read {} pub trait Seek {} pub trait BufRead {}
/// the dependency reported a failure
pub uninterp spec fn dep_failed() -> bool;
'''


def enum_text(file, name):
    for f in rast.load(file):
        if f["k"] == "typeitem" and f["name"] == name:
            return "#[derive(Clone, Copy)] pub " + re.sub(r"//[^\n]*", "", f["t"][f["t"].index("enum"):]) + "\n"
    raise Unsupported("enum %s not found" % name)


def into(b):
    return rast.rewrite(b, lambda n: dict(n, m="v_into") if n.get("k") == "mcall" and n["m"] == "into" and not n["a"] else n)


def packers(names):
    return vcol.gamma_fns() + [f for f in vcol.srgb_fns() if f.name in ("to_srgb", "new_with_alpha", "to_rgb")] + colour_fns() + [setsub(f, (be,)) for f in quant_fns()] + vcore.getters() + [pack_fn(n) for n in names]


PNGM = r'''
#[derive(Clone, Copy, PartialEq, Eq)] pub enum ColorType { Grayscale, Rgb, Indexed, GrayscaleAlpha, Rgba }
#[derive(Clone, Copy, PartialEq, Eq)] pub enum BitDepth { One, Two, Four, Eight, Sixteen }
pub open spec fn nch(c: ColorType) -> int { match c { ColorType::Grayscale => 1int, ColorType::GrayscaleAlpha => 2int, ColorType::Rgb => 3int, ColorType::Rgba => 4int, ColorType::Indexed => 1int } }
pub open spec fn bpp(c: ColorType, b: BitDepth) -> int { if b is Sixteen { match c { ColorType::Grayscale => 2int, ColorType::GrayscaleAlpha => 4int, ColorType::Rgb => 6int, ColorType::Rgba => 8int, ColorType::Indexed => 2int } } else { nch(c) } }
/// the bytes are the samples of the image in this layout
pub open spec fn is_layout(o: Seq<u8>, p: Seq<Rgb>, c: ColorType, b: BitDepth) -> bool {
    match (c, b) {
        (ColorType::Grayscale, BitDepth::Eight) => is_g8(o, p), (ColorType::GrayscaleAlpha, BitDepth::Eight) => is_ga8(o, p),
        (ColorType::Rgb, BitDepth::Eight) => is_rgb8(o, p), (ColorType::Rgba, BitDepth::Eight) => is_rgba8(o, p),
        (ColorType::Grayscale, BitDepth::Sixteen) => is_g16(o, p), (ColorType::GrayscaleAlpha, BitDepth::Sixteen) => is_ga16(o, p),
        (ColorType::Rgb, BitDepth::Sixteen) => is_rgb16(o, p), (ColorType::Rgba, BitDepth::Sixteen) => is_rgba16(o, p),
        _ => false,
    }
}
'''
PNGE = r'''
pub open spec fn want_color(t: PngColorType) -> ColorType { match t { PngColorType::L8 | PngColorType::L16 => ColorType::Grayscale, PngColorType::La8 | PngColorType::La16 => ColorType::GrayscaleAlpha, PngColorType::Rgb8 | PngColorType::Rgb16 => ColorType::Rgb, PngColorType::Rgba8 | PngColorType::Rgba16 => ColorType::Rgba } }
pub open spec fn want_depth(t: PngColorType) -> BitDepth { match t { PngColorType::L8 | PngColorType::La8 | PngColorType::Rgb8 | PngColorType::Rgba8 => BitDepth::Eight, _ => BitDepth::Sixteen } }
// ---- trusted: contract of the png crate's encoder
#[verifier::external_body] pub struct PngEncodingError { u: u8 }
#[verifier::external_body] pub struct Compression { u: u8 }
#[verifier::external_body] pub struct FilterType { u: u8 }
impl PngCompression { #[verifier::external_body] pub fn v_into(self) -> (r: Compression) { unimplemented!() } }
impl PngFilterType { #[verifier::external_body] pub fn v_into(self) -> (r: FilterType) { unimplemented!() } }
#[verifier::external_body] pub fn encode_error(e: PngEncodingError) -> (r: EncodingError) { unimplemented!() }
/// a complete image was handed to the encoder that was made for this sink
pub uninterp spec fn stored<W>(sink: W, w: u32, h: u32, c: ColorType, b: BitDepth, data: Seq<u8>) -> bool;
pub struct Encoder<W> { pub sink: W, pub w: u32, pub h: u32, pub c: ColorType, pub b: BitDepth }
pub struct Writer<W> { pub sink: W, pub w: u32, pub h: u32, pub c: ColorType, pub b: BitDepth }
impl<W> Encoder<W> {
    #[verifier::external_body] pub fn new(sink: W, w: u32, h: u32) -> (r: Self) ensures r == (Encoder { sink, w, h, c: ColorType::Grayscale, b: BitDepth::Eight }) { unimplemented!() }
    #[verifier::external_body] pub fn set_color(&mut self, c: ColorType) ensures *final(self) == (Encoder { c, ..*old(self) }) { unimplemented!() }
    #[verifier::external_body] pub fn set_depth(&mut self, b: BitDepth) ensures *final(self) == (Encoder { b, ..*old(self) }) { unimplemented!() }
    #[verifier::external_body] pub fn set_compression(&mut self, c: Compression) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn set_filter(&mut self, c: FilterType) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn write_header(self) -> (r: Result<Writer<W>, PngEncodingError>) ensures r is Err ==> dep_failed(), r is Ok ==> r->Ok_0 == (Writer { sink: self.sink, w: self.w, h: self.h, c: self.c, b: self.b }) { unimplemented!() }
}
impl<W> Writer<W> {
    #[verifier::external_body] pub fn write_image_data(&mut self, d: &Vec<u8>) -> (r: Result<(), PngEncodingError>)
        requires d@.len() == old(self).w as int * old(self).h as int * bpp(old(self).c, old(self).b)
        ensures r is Ok ==> stored(old(self).sink, old(self).w, old(self).h, old(self).c, old(self).b, d@), r is Err ==> dep_failed() { unimplemented!() }
}
'''
IMGE = r'''
#[derive(Clone, Copy, PartialEq, Eq)] pub enum ColorType { L8, La8, Rgb8, Rgba8, L16, La16, Rgb16, Rgba16, Rgb32F, Rgba32F }
pub open spec fn bpp(c: ColorType) -> int { match c { ColorType::L8 => 1int, ColorType::La8 => 2int, ColorType::Rgb8 => 3int, ColorType::Rgba8 => 4int, ColorType::L16 => 2int, ColorType::La16 => 4int, ColorType::Rgb16 => 6int, ColorType::Rgba16 => 8int, ColorType::Rgb32F => 12int, ColorType::Rgba32F => 16int } }
pub open spec fn is_layout(o: Seq<u8>, p: Seq<Rgb>, c: ColorType) -> bool { match c { ColorType::L8 => is_g8(o, p), ColorType::La8 => is_ga8(o, p), ColorType::Rgb8 => is_rgb8(o, p), ColorType::Rgba8 => is_rgba8(o, p), _ => false } }
pub open spec fn want_color(t: @T@) -> ColorType { match t { @T@::L8 => ColorType::L8, @T@::La8 => ColorType::La8, @T@::Rgb8 => ColorType::Rgb8, @T@::Rgba8 => ColorType::Rgba8 } }
// ---- trusted: contract of the image crate's encoder
pub enum ImageError { IoError(IoErr), Other(Msg) }
impl ImageError { #[verifier::external_body] pub fn v_to_string(&self) -> (r: Msg) { unimplemented!() } }
pub uninterp spec fn stored(w: u32, h: u32, c: ColorType, data: Seq<u8>) -> bool;
#[verifier::external_body] pub struct @E@ { u: u8 }
impl @E@ {
    #[verifier::external_body] pub fn new<W>(w: @REF@W) -> (r: @E@) { unimplemented!() }
    #[verifier::external_body] pub fn @M@(self, d: &Vec<u8>, w: u32, h: u32, c: ColorType) -> (r: Result<(), ImageError>)
        requires d@.len() == w as int * h as int * bpp(c)
        ensures r is Ok ==> stored(w, h, c, d@), r is Err ==> dep_failed() { unimplemented!() }
}
'''


def specs(): return "".join(packed_spec(*PACK[n])[0] for n in PACK)


def unit_png_enc():
    fn = Fn(PNG, "encode_png", req=["@p1.wf()"], ens=["r is Err ==> dep_failed()",
            "r is Ok ==> exists|o: Seq<u8>| #[trigger] stored(@p0, @p1.width, @p1.height, want_color(@p2), want_depth(@p2), o) && is_layout(o, @p1.px(), want_color(@p2), want_depth(@p2))"],
            entry="proof { dims_bound(@p1.w(), @p1.h()); }", subst=(into,))
    yield Unit("c17e", lambda: vcol.GAM0 + vcol.LG + vcore_prelude() + intensity() + Q + specs() + ERRS + enum_text(PNG, "PngColorType") + enum_text(PNG, "PngFilterType") + enum_text(PNG, "PngCompression") + PNGM + PNGE, real=True).add(*packers(PACK)).add(fn)


def unit_img_enc(which):
    def f():
        file, t, e, m, rf, name = (BMP, "BmpColorType", "BmpEncoder", "encode", "&mut ", "encode_bmp") if which == "bmp" else (ICO, "IcoColorType", "IcoEncoder", "write_image", "", "encode_ico")
        fn = Fn(file, name, req=["@p1.wf()"], ens=["r is Err ==> dep_failed()",
                "r is Ok ==> exists|o: Seq<u8>| #[trigger] stored(@p1.width, @p1.height, want_color(@p2), o) && is_layout(o, @p1.px(), want_color(@p2))"],
                entry="proof { dims_bound(@p1.w(), @p1.h()); }")
        pre = IMGE.replace("@T@", t).replace("@E@", e).replace("@M@", m).replace("@REF@", rf)
        yield Unit("c17" + which, lambda: vcol.GAM0 + vcol.LG + vcore_prelude() + intensity() + Q + specs() + ERRS + enum_text(file, t) + pre, real=True).add(*packers([n for n in PACK if PACK[n][1] == 8])).add(fn)
    return f


# ------------------------------------------------------------------ C17: decoders
DECM = r'''
/// the colour of a pixel from its stored samples a, b, c and alpha d
pub open spec fn is_px(p: Rgb, a: real, b: real, c: real, d: real) -> bool { ch(p.data, 0) == c01(lin(c01(a))) && ch(p.data, 1) == c01(lin(c01(b))) && ch(p.data, 2) == c01(lin(c01(c))) && ch(p.data, 3) == c01(d) }
'''
PNGD = r'''
pub open spec fn smp(f: Seq<u8>, k: int, b: BitDepth) -> real { if b is Sixteen { ((f[2 * k] as int * 256 + f[2 * k + 1] as int) as real) / 65535real } else { (f[k] as int as real) / 255real } }
/// pixel i of a frame with this layout
pub open spec fn is_dec(f: Seq<u8>, i: int, c: ColorType, b: BitDepth, p: Rgb) -> bool {
    match c {
        ColorType::Rgba => is_px(p, smp(f, 4 * i, b), smp(f, 4 * i + 1, b), smp(f, 4 * i + 2, b), smp(f, 4 * i + 3, b)),
        ColorType::Rgb => is_px(p, smp(f, 3 * i, b), smp(f, 3 * i + 1, b), smp(f, 3 * i + 2, b), 1real),
        ColorType::GrayscaleAlpha => is_px(p, smp(f, 2 * i, b), smp(f, 2 * i, b), smp(f, 2 * i, b), smp(f, 2 * i + 1, b)),
        ColorType::Grayscale => is_px(p, smp(f, i, b), smp(f, i, b), smp(f, i, b), 1real),
        ColorType::Indexed => false,
    }
}
// ---- trusted: contract of the png crate's decoder; a reader stands for the image in it
pub uninterp spec fn png_w<T>(t: T) -> u32;
pub uninterp spec fn png_h<T>(t: T) -> u32;
pub uninterp spec fn png_c<T>(t: T) -> ColorType;
pub uninterp spec fn png_b<T>(t: T) -> BitDepth;
pub uninterp spec fn png_frame<T>(t: T) -> Seq<u8>;
#[verifier::external_body] pub struct PngDecodingError { u: u8 }
#[verifier::external_body] pub fn decode_error(e: PngDecodingError) -> (r: DecodingError) { unimplemented!() }
pub mod png { use super::*; pub struct Transformations { pub bits: u8 } impl Transformations { pub const IDENTITY: Transformations = Transformations { bits: 0 }; pub const STRIP_16: Transformations = Transformations { bits: 1 }; pub const EXPAND: Transformations = Transformations { bits: 2 }; } }
pub struct Decoder<T> { pub src: T, pub expand: bool }
pub struct Reader<T> { pub src: T, pub expand: bool }
pub struct Info { pub width: u32, pub height: u32 }
#[verifier::external_body] pub struct OutputInfo { u: u8 }
impl<T> Decoder<T> {
    #[verifier::external_body] pub fn new(src: T) -> (r: Self) ensures r == (Decoder { src, expand: false }) { unimplemented!() }
    #[verifier::external_body] pub fn set_transformations(&mut self, t: png::Transformations) ensures *final(self) == (Decoder { src: old(self).src, expand: t.bits == 2 }) { unimplemented!() }
    #[verifier::external_body] pub fn read_info(self) -> (r: Result<Reader<T>, PngDecodingError>) ensures r is Err ==> dep_failed(), r is Ok ==> r->Ok_0 == (Reader { src: self.src, expand: self.expand }) { unimplemented!() }
}
impl<T> Reader<T> {
    /// expanded frames have no palette and no samples of less than 8 bits
    #[verifier::external_body] pub fn output_color_type(&self) -> (r: (ColorType, BitDepth)) ensures self.expand ==> r.0 == png_c(self.src) && r.1 == png_b(self.src) && !(r.0 is Indexed) && (r.1 is Eight || r.1 is Sixteen) { unimplemented!() }
    #[verifier::external_body] pub fn info(&self) -> (r: &Info) ensures r.width == png_w(self.src), r.height == png_h(self.src) { unimplemented!() }
    #[verifier::external_body] pub fn next_frame(&mut self, d: &mut Vec<u8>) -> (r: Result<OutputInfo, PngDecodingError>)
        requires old(d)@.len() >= png_w(old(self).src) as int * png_h(old(self).src) as int * bpp(png_c(old(self).src), png_b(old(self).src))
        ensures final(self).src == old(self).src, final(d)@.len() == old(d)@.len(), r is Err ==> dep_failed(),
            r is Ok && old(self).expand ==> png_frame(old(self).src).len() == png_w(old(self).src) as int * png_h(old(self).src) as int * bpp(png_c(old(self).src), png_b(old(self).src)) && forall|k: int| 0 <= k < png_frame(old(self).src).len() ==> final(d)@[k] == #[trigger] png_frame(old(self).src)[k] { unimplemented!() }
}
'''


def dec_fns():
    return vcol.gamma_fns() + [f for f in vcol.srgb_fns() if f.name in ("new_with_alpha", "to_rgb")] + [f for f in colour_fns() if f.file == SRGB] + [setsub(f, (be,)) for f in quant_fns() if f.name.startswith("from")] + vcore.getters() + \
        [f for f in vcore.new_fns("B") if f.name in ("is_valid_buffer_size", "validate_size", "new_from_raw")]


def unit_png_dec():
    n = "(png_w(@p0) as int * png_h(@p0) as int)"
    fn = Fn(PNG, "decode_png", ens=["r is Err ==> dep_failed() || !dims_ok(png_w(@p0) as int, png_h(@p0) as int)",
            "r is Ok ==> r->Ok_0.buffer.wf() && r->Ok_0.buffer.w() == png_w(@p0) && r->Ok_0.buffer.h() == png_h(@p0)",
            "r is Ok ==> forall|i: int| 0 <= i < %s ==> is_dec(png_frame(@p0), i, png_c(@p0), png_b(@p0), #[trigger] r->Ok_0.buffer.px()[i])" % n],
            entry="let ghost src = @p0; proof { if dims_ok(png_w(src) as int, png_h(src) as int) { dims_bound(png_w(src) as int, png_h(src) as int); } }",
            loops=[Loop(["_n%d == png_w(src) as int * png_h(src) as int" % k, "0 <= _i%d <= _n%d" % (k, k), "_v%d@.len() == _i%d" % (k, k), "forall|i: int| 0 <= i < _i%d ==> is_dec(png_frame(src), i, png_c(src), png_b(src), #[trigger] _v%d@[i])" % (k, k)], ty="Rgb") for k in range(8)], tags=["collect"] * 8)
    yield Unit("c17d", lambda: vcol.GAM0 + vcol.LG + vcore_prelude() + ERRS + DECM + PNGM.split("/// the bytes")[0] + PNGD, real=True).add(*dec_fns()).add(fn)


DYN = [("ImageRgb8", "u8", 3), ("ImageRgba8", "u8", 4), ("ImageRgb16", "u16", 3), ("ImageRgba16", "u16", 4), ("ImageLuma8", "u8", 1), ("ImageLumaA8", "u8", 2), ("ImageLuma16", "u16", 1), ("ImageLumaA16", "u16", 2), ("ImageRgb32F", "f32", 3), ("ImageRgba32F", "f32", 4)]


def dynm():
    def px(t, n):
        v = (lambda k: "im.px@[i]@[%d].r()" % k) if t == "f32" else (lambda k: "(im.px@[i]@[%d] as int as real) / %sreal" % (k, {"u8": 255, "u16": 65535}[t]))
        k = [0, 0, 0] if n < 3 else [0, 1, 2]
        return "%s(p, %s, %s)" % ("is_pxf" if t == "f32" else "is_px", ", ".join(v(x) for x in k), "1real" if n % 2 else v(n - 1))
    return r'''
pub open spec fn is_pxf(p: Rgb, a: real, b: real, c: real, d: real) -> bool { ch(p.data, 0) == c01(lin(a)) && ch(p.data, 1) == c01(lin(b)) && ch(p.data, 2) == c01(lin(c)) && ch(p.data, 3) == c01(d) }
// ---- trusted: contract of image::DynamicImage; an image buffer holds width x height pixels
pub struct Im<T, const N: usize> { pub w: u32, pub h: u32, pub px: Vec<[T; N]> }
impl<T, const N: usize> Im<T, N> { #[verifier::external_body] pub fn pixel_seq(&self) -> (r: &Vec<[T; N]>) ensures *r == self.px { unimplemented!() } }
pub enum DynamicImage { %s, Other(u32, u32) }
pub use DynamicImage::*;
impl DynamicImage {
    pub open spec fn w_(self) -> u32 { match self { %s, DynamicImage::Other(w, h) => w } }
    pub open spec fn h_(self) -> u32 { match self { %s, DynamicImage::Other(w, h) => h } }
    pub open spec fn ok(self) -> bool { match self { %s, DynamicImage::Other(w, h) => true } }
    /// the colour of pixel i
    pub open spec fn is_at(self, i: int, p: Rgb) -> bool { match self { %s, DynamicImage::Other(w, h) => false } }
    #[verifier::external_body] pub fn width(&self) -> (r: u32) ensures r == self.w_() { unimplemented!() }
    #[verifier::external_body] pub fn height(&self) -> (r: u32) ensures r == self.h_() { unimplemented!() }
    #[verifier::external_body] pub fn from_decoder<D: ImDec>(d: D) -> (r: Result<DynamicImage, ImageError>) ensures r is Err ==> dep_failed(), r is Ok ==> r->Ok_0 == d.img() && d.img().ok() { unimplemented!() }
}
pub trait ImDec: Sized { spec fn img(self) -> DynamicImage; }
pub enum ImageError { IoError(IoErr), Other(Msg) }
impl ImageError { #[verifier::external_body] pub fn v_to_string(&self) -> (r: Msg) { unimplemented!() } }
/// the image in a stream
pub uninterp spec fn image_in<T>(t: T) -> DynamicImage;
''' % (", ".join("%s(Im<%s, %d>)" % (v, "Fl" if t == "f32" else t, n) for v, t, n in DYN),
       ", ".join("DynamicImage::%s(im) => im.w" % v for v, _, _ in DYN), ", ".join("DynamicImage::%s(im) => im.h" % v for v, _, _ in DYN), ", ".join("DynamicImage::%s(im) => im.px@.len() == im.w as int * im.h as int" % v for v, _, _ in DYN),
       ", ".join("DynamicImage::%s(im) => %s" % (v, px(t, n)) for v, t, n in DYN))


def read_fn():
    return Fn(UT, "read_into_buffer", req=["@p0.ok()"], ens=["r is Err ==> @p0 is Other || !dims_ok(@p0.w_() as int, @p0.h_() as int)",
              "r is Ok ==> r->Ok_0.wf() && r->Ok_0.w() == @p0.w_() && r->Ok_0.h() == @p0.h_()",
              "r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.px().len() ==> @p0.is_at(i, #[trigger] r->Ok_0.px()[i])"],
              entry="let ghost src = @p0; proof { if dims_ok(src.w_() as int, src.h_() as int) { dims_bound(src.w_() as int, src.h_() as int); } }",
              loops=[Loop(["_n%d == src.w_() as int * src.h_() as int" % k, "0 <= _i%d <= _n%d" % (k, k), "_v%d@.len() == _i%d" % (k, k), "forall|i: int| 0 <= i < _i%d ==> src.is_at(i, #[trigger] _v%d@[i])" % (k, k)], ty="Rgb") for k in range(10)], tags=["collect"] * 10)


def unit_img_dec():
    ens = ["r is Err ==> dep_failed() || image_in(@p0) is Other || !dims_ok(image_in(@p0).w_() as int, image_in(@p0).h_() as int)",
           "r is Ok ==> r->Ok_0.buffer.wf() && r->Ok_0.buffer.w() == image_in(@p0).w_() && r->Ok_0.buffer.h() == image_in(@p0).h_()",
           "r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.buffer.px().len() ==> image_in(@p0).is_at(i, #[trigger] r->Ok_0.buffer.px()[i])"]
    dec = "".join('''
pub struct %s<T> { pub src: T }
impl<T> ImDec for %s<T> { open spec fn img(self) -> DynamicImage { image_in(self.src) } }
impl<T> %s<T> { #[verifier::external_body] pub fn new(src: T) -> (r: Result<Self, ImageError>) ensures r is Err ==> dep_failed(), r is Ok ==> r->Ok_0.src == src { unimplemented!() } }
''' % (d, d, d) for d in ("BmpDecoder", "IcoDecoder"))
    yield Unit("c17r", lambda: vcol.GAM0 + vcol.LG + vcore_prelude() + ERRS + DECM + dynm() + dec, real=True).add(*dec_fns()).add(read_fn()).add(
        *[Fn(f, n, ens=ens, rescalls=("read_into_buffer",)) for f, n in ((BMP, "decode_bmp"), (ICO, "decode_ico"))])


def argb_fn():
    d = "@p0.px()[i].data"
    one = "argb(@p1.f(mk(sm({d}, 3))), @p1.f(mk(sm({d}, 0))), @p1.f(mk(sm({d}, 1))), @p1.f(mk(sm({d}, 2))))".format(d=d)
    P = "@p0.px()"
    return Fn(UT, "to_argb8_vec32", req=["@p0.wf()", "forall|x: Fl| @p1.pre(x)"], ens=["r@.len() == %s.len()" % P, "forall|i: int| 0 <= i < %s.len() ==> #[trigger] r@[i] == %s" % (P, one)], pure="all",
              entry="broadcast use r_mk; proof { dims_bound(@p0.w(), @p0.h()); }", tags=["for"],
              loops=[Loop(["_n0 == %s.len()" % P, "0 <= _i0 <= _n0", "@push@.len() == _i0", "forall|i: int| 0 <= i < _i0 ==> #[trigger] @push@[i] == %s" % one])])


def unit_argb():
    yield Unit("c17a", lambda: vcol.GAM0 + vcol.LG + vcore_prelude() + intensity() + Q, real=True).add(*packers([])).add(argb_fn())


RT = r'''
pub open spec fn mx(b: BitDepth) -> int { if b is Sixteen { 65535int } else { 255int } }
/// x quantised to the bit depth
pub open spec fn quant(x: real, m: int) -> real { (qs(x, m) as real) / (m as real) }
/// the sRGB value of a channel of a decoded pixel
pub open spec fn srgb_of(p: Rgb, k: int) -> real { c01(gam(ch(p.data, k))) }
pub open spec fn restored(q: Rgb, d: [f32; 4], c: ColorType, m: int) -> bool {
    match c {
        ColorType::Rgba => srgb_of(q, 0) == quant(sm(d, 0), m) && srgb_of(q, 1) == quant(sm(d, 1), m) && srgb_of(q, 2) == quant(sm(d, 2), m) && ch(q.data, 3) == quant(sm(d, 3), m),
        ColorType::Rgb => srgb_of(q, 0) == quant(sm(d, 0), m) && srgb_of(q, 1) == quant(sm(d, 1), m) && srgb_of(q, 2) == quant(sm(d, 2), m) && ch(q.data, 3) == 1real,
        ColorType::GrayscaleAlpha => srgb_of(q, 0) == quant(sg(d), m) && srgb_of(q, 1) == quant(sg(d), m) && srgb_of(q, 2) == quant(sg(d), m) && ch(q.data, 3) == quant(sm(d, 3), m),
        ColorType::Grayscale => srgb_of(q, 0) == quant(sg(d), m) && srgb_of(q, 1) == quant(sg(d), m) && srgb_of(q, 2) == quant(sg(d), m) && ch(q.data, 3) == 1real,
        _ => false,
    }
}
proof fn back(x: real, m: int)
    requires m == 255 || m == 65535
    ensures 0 <= qs(x, m) <= m, unit(quant(x, m)), c01(gam(c01(lin(quant(x, m))))) == quant(x, m), c01(quant(x, m)) == quant(x, m)
{ sample_back(quant(x, m), qs(x, m), m); }
proof fn smp8(o: Seq<u8>, k: int, x: real)
    requires o[k] == s8(x)
    ensures smp(o, k, BitDepth::Eight) == quant(x, 255), c01(gam(c01(lin(c01(quant(x, 255)))))) == quant(x, 255), c01(quant(x, 255)) == quant(x, 255)
{ back(x, 255); }
proof fn smp16(o: Seq<u8>, k: int, x: real)
    requires o[2 * k] == hi(x), o[2 * k + 1] == lo(x)
    ensures smp(o, k, BitDepth::Sixteen) == quant(x, 65535), c01(gam(c01(lin(c01(quant(x, 65535)))))) == quant(x, 65535), c01(quant(x, 65535)) == quant(x, 65535)
{ back(x, 65535); }
/// what encode_png stores and what decode_png makes of a frame, put together: the decoded pixel is the quantised pixel
proof fn rt_g8(p: Seq<Rgb>, o: Seq<u8>, i: int, q: Rgb)
    requires 0 <= i < p.len(), is_g8(o, p), is_dec(o, i, ColorType::Grayscale, BitDepth::Eight, q)
    ensures restored(q, p[i].data, ColorType::Grayscale, 255)
{ let d = p[i].data; assert(at_g8(o, i, p[i].data)); smp8(o, i, sg(d)); }
proof fn rt_g16(p: Seq<Rgb>, o: Seq<u8>, i: int, q: Rgb)
    requires 0 <= i < p.len(), is_g16(o, p), is_dec(o, i, ColorType::Grayscale, BitDepth::Sixteen, q)
    ensures restored(q, p[i].data, ColorType::Grayscale, 65535)
{ let d = p[i].data; assert(at_g16(o, i, p[i].data)); smp16(o, i, sg(d)); }
proof fn rt_ga8(p: Seq<Rgb>, o: Seq<u8>, i: int, q: Rgb)
    requires 0 <= i < p.len(), is_ga8(o, p), is_dec(o, i, ColorType::GrayscaleAlpha, BitDepth::Eight, q)
    ensures restored(q, p[i].data, ColorType::GrayscaleAlpha, 255)
{ let d = p[i].data; assert(at_ga8(o, i, p[i].data)); smp8(o, 2 * i + 0, sg(d)); smp8(o, 2 * i + 1, sm(d, 3)); }
proof fn rt_ga16(p: Seq<Rgb>, o: Seq<u8>, i: int, q: Rgb)
    requires 0 <= i < p.len(), is_ga16(o, p), is_dec(o, i, ColorType::GrayscaleAlpha, BitDepth::Sixteen, q)
    ensures restored(q, p[i].data, ColorType::GrayscaleAlpha, 65535)
{ let d = p[i].data; assert(at_ga16(o, i, p[i].data)); smp16(o, 2 * i + 0, sg(d)); smp16(o, 2 * i + 1, sm(d, 3)); }
proof fn rt_rgb8(p: Seq<Rgb>, o: Seq<u8>, i: int, q: Rgb)
    requires 0 <= i < p.len(), is_rgb8(o, p), is_dec(o, i, ColorType::Rgb, BitDepth::Eight, q)
    ensures restored(q, p[i].data, ColorType::Rgb, 255)
{ let d = p[i].data; assert(at_rgb8(o, i, p[i].data)); smp8(o, 3 * i + 0, sm(d, 0)); smp8(o, 3 * i + 1, sm(d, 1)); smp8(o, 3 * i + 2, sm(d, 2)); }
proof fn rt_rgb16(p: Seq<Rgb>, o: Seq<u8>, i: int, q: Rgb)
    requires 0 <= i < p.len(), is_rgb16(o, p), is_dec(o, i, ColorType::Rgb, BitDepth::Sixteen, q)
    ensures restored(q, p[i].data, ColorType::Rgb, 65535)
{ let d = p[i].data; assert(at_rgb16(o, i, p[i].data)); smp16(o, 3 * i + 0, sm(d, 0)); smp16(o, 3 * i + 1, sm(d, 1)); smp16(o, 3 * i + 2, sm(d, 2)); }
proof fn rt_rgba8(p: Seq<Rgb>, o: Seq<u8>, i: int, q: Rgb)
    requires 0 <= i < p.len(), is_rgba8(o, p), is_dec(o, i, ColorType::Rgba, BitDepth::Eight, q)
    ensures restored(q, p[i].data, ColorType::Rgba, 255)
{ let d = p[i].data; assert(at_rgba8(o, i, p[i].data)); smp8(o, 4 * i + 0, sm(d, 0)); smp8(o, 4 * i + 1, sm(d, 1)); smp8(o, 4 * i + 2, sm(d, 2)); smp8(o, 4 * i + 3, sm(d, 3)); }
proof fn rt_rgba16(p: Seq<Rgb>, o: Seq<u8>, i: int, q: Rgb)
    requires 0 <= i < p.len(), is_rgba16(o, p), is_dec(o, i, ColorType::Rgba, BitDepth::Sixteen, q)
    ensures restored(q, p[i].data, ColorType::Rgba, 65535)
{ let d = p[i].data; assert(at_rgba16(o, i, p[i].data)); smp16(o, 4 * i + 0, sm(d, 0)); smp16(o, 4 * i + 1, sm(d, 1)); smp16(o, 4 * i + 2, sm(d, 2)); smp16(o, 4 * i + 3, sm(d, 3)); }
proof fn png_round_trip(p: Seq<Rgb>, o: Seq<u8>, i: int, c: ColorType, b: BitDepth, q: Rgb)
    requires 0 <= i < p.len(), is_layout(o, p, c, b), is_dec(o, i, c, b, q)
    ensures restored(q, p[i].data, c, mx(b))
{
    match (c, b) {
        (ColorType::Grayscale, BitDepth::Eight) => rt_g8(p, o, i, q),
        (ColorType::Grayscale, BitDepth::Sixteen) => rt_g16(p, o, i, q),
        (ColorType::GrayscaleAlpha, BitDepth::Eight) => rt_ga8(p, o, i, q),
        (ColorType::GrayscaleAlpha, BitDepth::Sixteen) => rt_ga16(p, o, i, q),
        (ColorType::Rgb, BitDepth::Eight) => rt_rgb8(p, o, i, q),
        (ColorType::Rgb, BitDepth::Sixteen) => rt_rgb16(p, o, i, q),
        (ColorType::Rgba, BitDepth::Eight) => rt_rgba8(p, o, i, q),
        (ColorType::Rgba, BitDepth::Sixteen) => rt_rgba16(p, o, i, q),
        _ => (),
    }
}
'''


def unit_png_rt():
    yield Unit("c17t", lambda: vcol.POW + vcol.GAM + vcore_prelude() + intensity() + Q + QL + specs() + DECM + PNGM + PNGD.split("// ---- trusted")[0] + RT, real=True).add(*vcol.gamma_fns())


# ------------------------------------------------------------------ C17: decode_webp
WEBP = "d10-codecs/src/webp.rs"
WEBD = r'''
// ---- trusted: contracts of std::io::Read and of libwebp (its documentation); the requirements are what keeps the unsafe calls inside their buffers
pub trait VRead: Sized {
    /// what the reader still has to give
    spec fn rest(&self) -> Seq<u8>;
    fn read<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: Result<usize, IoErr>)
        ensures r is Err ==> dep_failed(), r is Ok ==> r->Ok_0 <= N && r->Ok_0 <= old(self).rest().len() && final(buf)@.subrange(0, r->Ok_0 as int) == old(self).rest().subrange(0, r->Ok_0 as int) && final(self).rest() == old(self).rest().skip(r->Ok_0 as int)
            && (r->Ok_0 == 0 && N > 0 ==> old(self).rest().len() == 0);
}
#[verifier::external_body] pub fn v_sub<const N: usize>(b: &[u8; N], i: usize, j: usize) -> (r: &[u8]) requires i <= j <= N ensures r@ == b@.subrange(i as int, j as int) { unimplemented!() }
impl DecodingError { pub fn verr(e: IoErr) -> (r: DecodingError) { DecodingError::IoError(e) } }
#[verifier::external_body] pub fn v_msg(s: &str) -> (r: Msg) { unimplemented!() }
/// the picture in a WebP stream: dimensions and RGBA samples
pub uninterp spec fn webp_w(d: Seq<u8>) -> int;
pub uninterp spec fn webp_h(d: Seq<u8>) -> int;
pub uninterp spec fn webp_px(d: Seq<u8>) -> Seq<u8>;
/// addresses, with what can be read there
pub struct In { pub mem: Ghost<Seq<u8>> }
#[verifier::external_body] pub struct Out { u: u8 }
impl Out { pub uninterp spec fn mem(&self) -> Seq<u8>; pub uninterp spec fn null(&self) -> bool; #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == self.null() { unimplemented!() } }
pub fn v_ptr(d: &Vec<u8>) -> (r: In) ensures r.mem@ == d@, d@.take(d@.len() as int) == d@ { proof { assert(d@.take(d@.len() as int) =~= d@); } In { mem: Ghost(d@) } }
#[verifier::external_body] pub fn WebPGetInfo(p: In, len: usize, w: &mut i32, h: &mut i32) -> (r: i32) requires len <= p.mem@.len()
    ensures r != 0 ==> *final(w) == webp_w(p.mem@.take(len as int)) && *final(h) == webp_h(p.mem@.take(len as int)), r == 0 ==> dep_failed() { unimplemented!() }
/// a picture has 1 to 16383 rows and columns
#[verifier::external_body] pub fn WebPDecodeRGBA(p: In, len: usize, w: &mut i32, h: &mut i32) -> (r: Out) requires len <= p.mem@.len()
    ensures r.null() ==> dep_failed(), !r.null() ==> (*final(w) == webp_w(p.mem@.take(len as int)) && *final(h) == webp_h(p.mem@.take(len as int)) && 1 <= *final(w) <= 16383 && 1 <= *final(h) <= 16383 && 1 <= *final(w) * *final(h) <= 16383 * 16383 && r.mem() == webp_px(p.mem@.take(len as int)) && r.mem().len() == *final(w) * *final(h) * 4) { unimplemented!() }
#[verifier::external_body] pub fn v_from_raw_parts(p: &Out, n: usize) -> (r: &[u8]) requires !p.null(), n <= p.mem().len() ensures r@ == p.mem().take(n as int) { unimplemented!() }
#[verifier::external_body] pub fn WebPFree(p: Out) requires !p.null() { unimplemented!() }
/// pixel i of this picture
pub open spec fn is_webp(f: Seq<u8>, i: int, p: Rgb) -> bool { is_px(p, (f[4 * i] as int as real) / 255real, (f[4 * i + 1] as int as real) / 255real, (f[4 * i + 2] as int as real) / 255real, (f[4 * i + 3] as int as real) / 255real) }
'''


def webp_ffi(b):
    """raw addresses and slices made from them, as values with what can be read there"""
    def g(n):
        k = n.get("k")
        if k == "match" and n["e"].get("k") == "mcall" and n["e"]["m"] == "read":
            for a in n["arms"]:
                for x in rast.walk(a["b"]):
                    if x.get("k") == "return" and x["e"] and x["e"].get("k") == "call" and x["e"]["f"].get("p") == "Err" and x["e"]["a"][0].get("p") == "_t": x["e"] = rast.call("Err", rast.call("DecodingError::verr", rast.path("_t")))
        if k == "ref" and not n["mut"] and n["e"].get("k") == "index" and rast.strip(n["e"]["i"])["k"] == "range":
            r = rast.strip(n["e"]["i"])
            if r["r"] is None or r["incl"]: raise Unsupported("slice")
            return rast.call("v_sub", {"k": "ref", "mut": False, "e": n["e"]["e"]}, r["l"] or rast.lit("0"), r["r"])
        if k == "mcall" and n["m"] == "as_ptr" and not n["a"]: return rast.call("v_ptr", {"k": "ref", "mut": False, "e": n["e"]})
        if k == "cast" and "*mut" in n["ty"]: return n["e"]
        if k == "call" and n["f"].get("p", "").split("::")[-1] == "from_raw_parts": return rast.call("v_from_raw_parts", {"k": "ref", "mut": False, "e": n["a"][0]}, *n["a"][1:])
        if k == "macro" and n["n"] == "vec" and n.get("a") == []: return rast.call("Vec::new")
        if k == "mcall" and n["m"] in ("to_string", "v_to_string") and n["e"].get("k") == "lit": return rast.call("v_msg", n["e"])
        return n
    return rast.rewrite(b, g)


def unit_webp_dec():
    d = "g_d"
    fn = Fn(WEBP, "decode_webp", generics=["T: VRead"], where=[], inline=(("PixelBuffer::new_from_func", ((vcore.PB, "new_from_func", "PixelBuffer"), 2)),), subst=(webp_ffi,),
            ens=["r is Err ==> dep_failed()", "r is Ok ==> r->Ok_0.buffer.wf() && r->Ok_0.buffer.w() == webp_w(@p0.rest()) && r->Ok_0.buffer.h() == webp_h(@p0.rest())",
                 "r is Ok ==> forall|i: int| 0 <= i < webp_w(@p0.rest()) * webp_h(@p0.rest()) ==> is_webp(webp_px(@p0.rest()), i, #[trigger] r->Ok_0.buffer.px()[i])"],
            tags=["loop", "collect"], entry="let ghost g_d = @p0.rest();",
            loops=[Loop(["@m2@ + @p0.rest() =~= g_d"], brk=["@m2@ =~= g_d"], dec="@p0.rest().len()"),
                   Loop(["_n1 == webp_w(g_d) * webp_h(g_d)", "0 <= _i1 <= _n1", "_v1@.len() == _i1", "forall|i: int| 0 <= i < _i1 ==> is_webp(webp_px(g_d), i, #[trigger] _v1@[i])"], head="ix_of(_i1 as int, webp_w(g_d), webp_h(g_d));", ty="Rgb")])
    yield Unit("c17w", lambda: vcol.GAM0 + vcol.LG + vcore_prelude() + ERRS + DECM + WEBD, real=True).add(*dec_fns()).add(*[f for f in vcore.new_fns("B") if f.name == "new_from_func"]).add(fn)


# ------------------------------------------------------------------ C17: encode_webp
WEBE = r'''
// ---- trusted: contract of libwebp's encoder (its documentation); the requirements are what keeps it inside its buffers
#[derive(Clone, Copy)] pub enum PresetC { WEBP_PRESET_DEFAULT, WEBP_PRESET_PICTURE, WEBP_PRESET_PHOTO, WEBP_PRESET_DRAWING, WEBP_PRESET_ICON, WEBP_PRESET_TEXT }
pub use PresetC::*;
#[verifier::external_body] pub struct Bad { u: u8 }
#[verifier::external_body] pub struct WebPConfig { u: u8 }
impl WebPConfig {
    pub uninterp spec fn lossless(&self) -> bool;
    #[verifier::external_body] pub fn new() -> (r: Result<WebPConfig, Bad>) ensures r is Err ==> dep_failed(), r is Ok ==> !r->Ok_0.lossless() { unimplemented!() }
    #[verifier::external_body] pub fn new_with_preset(p: PresetC, q: Fl) -> (r: Result<WebPConfig, Bad>) requires 0real <= q.r() <= 100real ensures r is Err ==> dep_failed(), r is Ok ==> !r->Ok_0.lossless() { unimplemented!() }
}
/// levels from 0 to 9 are valid, anything else leaves the configuration alone
#[verifier::external_body] pub fn WebPConfigLosslessPreset(c: &mut WebPConfig, level: i32) -> (r: i32) ensures final(c).lossless() == (old(c).lossless() || 0 <= level <= 9) { unimplemented!() }
pub struct In32 { pub mem: Ghost<Seq<u32>> }
pub fn v_ptr(d: &Vec<u32>) -> (r: In32) ensures r.mem@ == d@ { In32 { mem: Ghost(d@) } }
#[derive(Clone, Copy)] pub struct WriterFn { pub u: u8 }
pub fn v_writer_function() -> (r: WriterFn) { WriterFn { u: 0 } }
/// the object the library calls back with
pub struct Writer<W> { pub w: W, pub err: Option<IoErr> }
pub struct Addr<W> { pub at: Ghost<Option<Writer<W>>> }
pub fn v_addr<W>(w: &Writer<W>) -> (r: Addr<W>) ensures r.at@ == Some(*w) { Addr { at: Ghost(Some(*w)) } }
pub struct WebPPicture<W> { pub use_argb: i32, pub width: i32, pub height: i32, pub argb: In32, pub argb_stride: i32, pub writer: Option<WriterFn>, pub custom_ptr: Addr<W> }
impl<W> WebPPicture<W> { #[verifier::external_body] pub fn new() -> (r: Result<Self, Bad>) ensures r is Err ==> dep_failed(), r is Ok ==> r->Ok_0.use_argb == 0 && r->Ok_0.width == 0 && r->Ok_0.height == 0 && r->Ok_0.writer is None { unimplemented!() } }
/// a WebP stream with these pixels, row by row, went to w
pub uninterp spec fn webp_stored<W>(w: W, lossless: bool, width: int, height: int, px: Seq<u32>) -> bool;
#[verifier::external_body] pub fn WebPEncode<W>(c: &WebPConfig, p: &mut WebPPicture<W>, sink: &mut Writer<W>) -> (r: i32)
    requires old(p).use_argb != 0, old(p).writer is Some, old(p).custom_ptr.at@ == Some(*old(sink)), old(p).argb_stride == old(p).width, old(p).argb.mem@.len() >= old(p).width * old(p).height
    ensures final(sink).err is Some ==> dep_failed(), r == 0 ==> dep_failed(),
        r != 0 && final(sink).err is None ==> webp_stored(old(sink).w, c.lossless(), old(p).width as int, old(p).height as int, old(p).argb.mem@.take(old(p).width * old(p).height)) { unimplemented!() }
#[verifier::external_body] pub fn WebPPictureFree<W>(p: &mut WebPPicture<W>) { unimplemented!() }
#[verifier::external_body] pub fn v_msg(s: &str) -> (r: Msg) { unimplemented!() }
impl EncodingError { pub fn verr(e: IoErr) -> (r: EncodingError) { EncodingError::IoError(e) } }
pub struct FnAsU8 { pub u: u8 }
impl FPv<Fl, u8> for FnAsU8 { open spec fn f(&self, x: Fl) -> u8 { qs(x.r(), 255) as u8 } open spec fn pre(&self, x: Fl) -> bool { true } fn call(&self, x: Fl) -> (r: u8) { as_u8(x) } }
pub struct FnAsU8Floor { pub u: u8 }
impl FPv<Fl, u8> for FnAsU8Floor { open spec fn f(&self, x: Fl) -> u8 { isat(rtrunc(rclamp(x.r() * 255real, 0real, 255real)), 0, 255) as u8 } open spec fn pre(&self, x: Fl) -> bool { true } fn call(&self, x: Fl) -> (r: u8) { as_u8_floor(x) } }
/// the nearest 8-bit samples of a pixel, packed
pub open spec fn exact(d: [f32; 4]) -> u32 { argb(qs(sm(d, 3), 255) as u8, qs(sm(d, 0), 255) as u8, qs(sm(d, 1), 255) as u8, qs(sm(d, 2), 255) as u8) }
'''


def webp_enc_ffi(b):
    def g(n):
        k = n.get("k")
        if k == "mcall" and n["m"] == "as_ptr" and not n["a"]: return rast.call("v_ptr", {"k": "ref", "mut": False, "e": n["e"]})
        if k == "cast" and "*mut" in n["ty"]:
            e = rast.strip(n["e"])
            return rast.call("v_addr", dict(e, mut=False)) if e.get("k") == "ref" else e
        if k == "path" and n["p"] == "writer_function": return rast.call("v_writer_function")
        if k == "path" and n["p"] in ("as_u8", "as_u8_floor"): return {"k": "ref", "mut": False, "e": {"k": "struct", "p": {"as_u8": "FnAsU8", "as_u8_floor": "FnAsU8Floor"}[n["p"]], "f": [["u", rast.lit("0")]], "rest": None}}
        if k == "struct" and n["p"] == "Writer": return dict(n, f=[[a, e["e"] if a == "w" and e["k"] == "ref" else e] for a, e in n["f"]])
        if k == "call" and n["f"].get("p") == "WebPEncode": return dict(n, a=n["a"] + [{"k": "ref", "mut": True, "e": rast.path("write")}])
        if k == "mcall" and n["m"] in ("to_owned", "v_to_owned", "to_string", "v_to_string") and n["e"].get("k") == "lit": return rast.call("v_msg", n["e"])
        if k == "mcall" and n["m"] == "into" and not n["a"]: return rast.call("EncodingError::verr", n["e"])
        return n
    return rast.rewrite(b, g)


def unit_webp_enc():
    px = "@p1.px()"
    fn = Fn(WEBP, "encode_webp", where=[], subst=(webp_enc_ffi,), req=["@p1.wf()"], entry="proof { dims_bound(@p1.w(), @p1.h()); }",
            ens=["r is Err ==> dep_failed()",
                 "r is Ok ==> exists|l: bool, o: Seq<u32>| #[trigger] webp_stored(@p0, l, @p1.w(), @p1.h(), o) && (@p3 is Lossless ==> l && o =~= Seq::new(%s.len(), |i: int| exact(%s[i].data)))" % (px, px)])
    yield Unit("c17x", lambda: vcol.GAM0 + vcol.LG + vcore_prelude() + intensity() + Q + ERRS + enum_text(WEBP, "WebPPreset") + WEBE, real=True).add(*packers([])).add(argb_fn()).add(fn)
