"""Contracts of the image type (C24): each method is the operation of its name on its buffer; the background colour is kept."""
import os, re
import native, rast
from rast import Unsupported
from weave import Fn, Loop, Unit
import vcore, vops
from vcore import prelude, SPEC_CALLS, WIT
from vops import none_subst

IM = "d10/src/image.rs"
OPSD = "d10-ops/src/"

# method -> operation where the names differ
SAME = ["crop", "flip_horizontal", "flip_vertical", "rotate90", "rotate180", "rotate270", "edge_detection", "resize", "random_noise", "salt_n_pepper_noise", "rgb_noise", "gaussian_noise", "gaussian_blur", "unsharp", "balance",
        "drawing", "interlace", "apply_palette", "despeckle", "stretch_contrast", "optimize_saturation", "change_color_temperature", "optimize_color_temperature", "optimize_lightness", "equalize", "symmetric_nearest_neighbor"]
INPLACE = ["add_random_noise", "add_salt_n_pepper_noise", "add_rgb_noise", "add_gaussian_noise", "apply_palette_in_place"]
OTHER = ["jpeg_quality", "blend_image", "rotate"]
_ops = {}


def op(name):
    """AST of the public operation `name` in d10-ops"""
    if not _ops:
        ops = {}
        for f in sorted(os.listdir(os.path.join(native.REPO, OPSD))):
            if not f.endswith(".rs"): continue
            for x in rast.load(OPSD + f):
                if x["k"] == "fnitem" and x["owner"] == "": ops.setdefault(x["name"], x)
        _ops.update(ops)
    if name not in _ops: raise Unsupported("operation %s not found (anchor lost)" % name)
    return _ops[name]


def enums():
    """the parameter enums of the operations, from /repo"""
    t = ""
    for f in sorted(os.listdir(os.path.join(native.REPO, OPSD))):
        if not f.endswith(".rs"): continue
        for x in rast.load(OPSD + f):
            if x["k"] == "typeitem" and re.search(r"\benum\b", x["t"]):
                m = re.search(r"enum\s+(\w+)\s*\{(.*)\}", x["t"], re.S)
                vs = [v.strip() for v in re.sub(r"//[^\n]*|#\s*\[[^\]]*\]", "", m.group(2)).split(",") if v.strip()]
                if any(not re.match(r"^\w+$", v) for v in vs): raise Unsupported("enum " + m.group(1))
                t += "#[derive(Clone, Copy)]\npub enum %s { %s }\n" % (m.group(1), ", ".join(vs))
    return t


def decl(name):
    """the operation as a trusted callee with an uninterpreted relation between its arguments and its result"""
    f = op(name)
    ps, sp, ex = [], [], []
    for p in f["params"]:
        n, ty = p["p"]["n"], re.sub(r"\bC\b", "Rgb", p["ty"].strip())
        if ty.replace(" ", "").startswith("&mut"):
            b = re.sub(r"^&\s*mut\s*", "", ty)
            sp += [b, b]; ex += ["*old(%s)" % n, "*final(%s)" % n]
        elif ty.startswith("&"):
            sp.append(ty[1:].strip()); ex.append("*" + n)
        else:
            sp.append(ty); ex.append(n)
        ps.append("%s: %s" % (n, ty))
    ret = re.sub(r"\bC\b", "Rgb", (f["ret"] or "").strip())
    if ret: sp.append(ret); ex.append("r")
    return "pub uninterp spec fn rel_%s(%s) -> bool;\n#[verifier::external_body]\npub fn %s(%s)%s ensures rel_%s(%s) { unimplemented!() }\n" % (
        name, ", ".join("a%d: %s" % z for z in enumerate(sp)), name, ", ".join(ps), " -> (r: %s)" % ret if ret else "", name, ", ".join(ex))


def unops(b):
    """`ops::f` -> `f`"""
    return rast.rewrite(b, lambda n: dict(n, p=re.sub(r"^(?:ops|d10_ops)\s*::\s*", "", n["p"])) if n.get("k") == "path" and "::" in n["p"] else n)


def try_into(b):
    """.try_into().unwrap() of a vector of the array's length"""
    def g(n):
        if n.get("k") == "mcall" and n["m"] in ("unwrap", "expect") and n["e"].get("k") == "mcall" and n["e"]["m"] == "try_into": return rast.call("vec_array", n["e"]["e"])
        return n
    return rast.rewrite(b, g)


STRUCT = r'''
#[verifier::external_body]
pub fn rgb_none_x() -> (r: Rgb) ensures r == rgb_none() { unimplemented!() }
/// trusted: Vec -> array of its length
#[verifier::external_body]
pub fn vec_array<T: Copy, const N: usize>(v: Vec<T>) -> (r: [T; N]) requires v@.len() == N ensures r@ == v@ { unimplemented!() }
pub open spec fn bufs(s: Seq<&Image>) -> Seq<PixelBuffer<Rgb>> { Seq::new(s.len(), |i: int| s[i].buffer) }
pub open spec fn derefs(s: Seq<&PixelBuffer<Rgb>>) -> Seq<PixelBuffer<Rgb>> { Seq::new(s.len(), |i: int| *s[i]) }
pub open spec fn bg_or_none(o: Option<Rgb>) -> Rgb { match o { Some(c) => c, None => rgb_none() } }
'''


def image_struct():
    for f in rast.load(IM):
        if f["k"] == "typeitem" and f["name"] == "Image":
            b = re.sub(r"//[^\n]*", "", f["t"][f["t"].index("{"):])
            return "pub struct Image " + re.sub(r"(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:", r"pub \1:", b) + "\n"
    raise Unsupported("struct Image not found")


CALLS = {"compose": ("FMvvv", "[Rgb; N]", "Rgb", ""), "try_compose": ("FMvvv", "[Rgb; N]", "Result<Rgb, E>", "E, "), "compose_slice": ("FMvvs", "Rgb", "Rgb", ""), "try_compose_slice": ("FMvvs", "Rgb", "Result<Rgb, E>", "E, ")}


def compose_decl(name):
    tr, a, r, e = CALLS[name]
    sl = "slice" in name
    n = "" if sl else ", const N: usize"
    res = "PixelBuffer<Rgb>" if not e else "Result<PixelBuffer<Rgb>, E>"
    return ("pub uninterp spec fn rel_%s<%sF%s>(b: Seq<PixelBuffer<Rgb>>, d: Rgb, f0: F, f1: F, r: %s) -> bool;\n#[verifier::external_body]\n"
            "pub fn %s<%sF: %s<u32, u32, %s, %s>%s>(images: %s, default: Rgb, func: &mut F) -> (r: %s) ensures rel_%s::<%sF%s>(derefs(images@), default, *old(func), *final(func), r) { unimplemented!() }\n" % (
                name, e, n, res, name, e, tr, a, r, n, "&[&PixelBuffer<Rgb>]" if sl else "[&PixelBuffer<Rgb>; N]", res, name, e, "" if sl else ", N"))


def keep(c):
    return c


def img_fn(name, opn=None, args=None, bg=True, **kw):
    f = rast.find(IM, name, "Image")
    n = len([p for p in f["params"] if not p["self"]])
    want = [p for p in op(opn or name)["params"]]
    if args is None:
        args = []
        for i, p in enumerate([p for p in f["params"] if not p["self"]]):
            args.append("@p%d.buffer" % (i + 1) if "Image" in p["ty"] else "@p%d" % (i + 1))
        if len(args) + 1 != len(want): raise Unsupported("parameters of %s" % name)
    ens = ["rel_%s(%s)" % (opn or name, ", ".join(["self.buffer"] + args + ["r.buffer"])), "r.bg_color == self.bg_color"]
    return Fn(IM, name, "Image", ens=ens, subst=[unops, none_subst], **kw)


def inplace_fn(name):
    f = rast.find(IM, name, "Image")
    args = ["@p%d.buffer" % (i + 1) if "Image" in p["ty"] else "@p%d" % (i + 1) for i, p in enumerate([p for p in f["params"] if not p["self"]])]
    return Fn(IM, name, "Image", ens=["rel_%s(%s)" % (name, ", ".join(["old(self).buffer", "final(self).buffer"] + args)), "final(self).bg_color == old(self).bg_color"], subst=[unops])


def ctors():
    P = ["r.bg_color is None", "r.buffer.wf()", "r.buffer.w() == @p0 && r.buffer.h() == @p1"]
    return [
        Fn(IM, "new", "Image", ens=P + ["forall|k: int| 0 <= k < r.buffer.px().len() ==> r.buffer.px()[k] == Rgb::dflt()"]),
        Fn(IM, "new_with_color", "Image", ens=P + ["forall|k: int| 0 <= k < r.buffer.px().len() ==> r.buffer.px()[k] == @p2"]),
        Fn(IM, "new_from_raw", "Image", ens=P + ["r.buffer.px() == @p2@"]),
        Fn(IM, "new_from_buffer", "Image", ens=["r.bg_color is None", "r.buffer == @p0"]),
        Fn(IM, "new_from_raw_with_meta", "Image", ens=["r.bg_color == @p0.bg_color", "r.buffer.wf()", "r.buffer.w() == @p1 && r.buffer.h() == @p2", "r.buffer.px() == @p3@"]),
        Fn(IM, "new_from_buffer_with_meta", "Image", ens=["r.bg_color == @p0.bg_color", "r.buffer == @p1"]),
    ]


def accessors():
    B = ["self.buffer.wf()"]
    from vcore import CLX, CLY
    cx, cy = CLX.replace("self.", "self.buffer."), CLY.replace("self.", "self.buffer.")
    inb = "@p1 < self.buffer.w() && @p2 < self.buffer.h()"
    return [
        Fn(IM, "width", "Image", ens=["r == self.buffer.w()"]),
        Fn(IM, "height", "Image", ens=["r == self.buffer.h()"]),
        Fn(IM, "is_empty", "Image", req=B, ens=["r == (self.buffer.px().len() == 0)"]),
        Fn(IM, "data", "Image", ens=["r@ == self.buffer.px()"]),
        Fn(IM, "buffer", "Image", ens=["*r == self.buffer"]),
        Fn(IM, "has_transparency", "Image", req=B, ens=["r == exists|k: int| 0 <= k < self.buffer.px().len() && (#[trigger] self.buffer.px()[k]).transparent()"]),
        Fn(IM, "is_grayscale", "Image", req=B, ens=["r == forall|k: int| 0 <= k < self.buffer.px().len() ==> rgb_gray(#[trigger] self.buffer.px()[k])"]),
        Fn(IM, "get_pixel", "Image", req=B, ens=[inb, "*r == self.buffer.at(@p1 as int, @p2 as int)"]),
        Fn(IM, "put_pixel", "Image", req=["old(self).buffer.wf()"], ens=[inb.replace("self", "old(self)"), "final(self).bg_color == old(self).bg_color", "final(self).buffer.w() == old(self).buffer.w() && final(self).buffer.h() == old(self).buffer.h()",
            "final(self).buffer.px() == old(self).buffer.px().update(ix(@p1 as int, @p2 as int, old(self).buffer.w()), @p3)"]),
        Fn(IM, "get_pixel_clamped", "Image", req=B + ["self.buffer.w() > 0"], ens=["*r == self.buffer.at(%s, %s)" % (cx, cy)]),
        Fn(IM, "get_pixel_optional", "Image", req=B, ens=["r.is_some() == (0 <= @p1 < self.buffer.w() && 0 <= @p2 < self.buffer.h())", "r.is_some() ==> *(r->Some_0) == self.buffer.at(@p1 as int, @p2 as int)"]),
        Fn(IM, "is_in_image", "Image", req=B, ens=["r == (0 <= @p1 < self.buffer.w() && 0 <= @p2 < self.buffer.h())"]),
    ]


def colour_fn(name):
    """the image's colour mapping has the buffer's contract on its buffer, and keeps the background"""
    mod = "mod_" in name
    enum, fal = "enumerated" in name, name.startswith("try_")
    c = (vcore.mod_fn if mod else vcore.map_fn)(name, enum, fal)
    ens = []
    for e in c.ens:
        for s in ("final(self)", "old(self)", "self"):
            e = re.sub(r"(?<!\w)%s\." % re.escape(s), s + ".buffer.", e)
        if not mod:
            e = re.sub(r"\br->Ok_0\.", "r->Ok_0.buffer.", e)
            e = re.sub(r"\br\.(px|w|h|wf)\(", r"r.buffer.\1(", e)
            e = e.replace("Seq<R>", "Seq<Rgb>").replace("Err::<R, E>", "Err::<Rgb, E>").replace("Ok::<R, E>", "Ok::<Rgb, E>")
        e = e.replace("Seq<T>", "Seq<Rgb>").replace("Err::<T, E>", "Err::<Rgb, E>").replace("Ok::<T, E>", "Ok::<Rgb, E>")
        ens.append(e)
    ens.append("final(self).bg_color == old(self).bg_color" if mod else "r is Ok ==> r->Ok_0.bg_color == self.bg_color" if fal else "r.bg_color == self.bg_color")
    return Fn(IM, name, "Image", req=["old(self).buffer.wf()" if mod else "self.buffer.wf()"], ens=ens)


MAPS = [a + b + c for a in ("", "try_") for b in ("map_colors", "mod_colors") for c in ("", "_enumerated")]


def buffer_maps():
    r = []
    for n in MAPS:
        r.append((vcore.mod_fn if "mod_" in n else vcore.map_fn)(n, "enumerated" in n, n.startswith("try_")))
    return r


def compose_img(name):
    arr = "slice" not in name
    g, ret = ("", "r.buffer") if not name.startswith("try") else ("E, ", "")
    it = "images@" if False else "@p0@"
    rel = "rel_%s::<%sF%s>(bufs(@p0@), @p1, *old(@p2), *final(@p2), %s)"
    N = ", N" if arr else ""
    if not g:
        ens = [rel % (name, g, N, "r.buffer"), "r.bg_color == @p0@[0].bg_color"]
    else:
        ens = ["exists|q: Result<PixelBuffer<Rgb>, E>| #[trigger] " + rel % (name, g, N, "q") + " && (match q { Ok(b) => r is Ok && r->Ok_0.buffer == b && r->Ok_0.bg_color == @p0@[0].bg_color, Err(e) => r is Err && r->Err_0 == e })"]
    return Fn(IM, name, "Image", req=["@p0@.len() > 0"], ens=ens, subst=[unops, try_into], tags=["collect"],
              loops=[Loop(["_n0 == @p0@.len()", "_i0 <= _n0", "_v0@.len() == _i0", "forall|k: int| 0 <= k < _i0 ==> *(#[trigger] _v0@[k]) == @p0@[k].buffer"], ty="&PixelBuffer<Rgb>",
                          after="assert(derefs(_v0@) =~= bufs(@p0@));")])


def unit_ctor():
    yield Unit("c24_new", lambda: prelude("A") + SPEC_CALLS + WIT + image_struct() + STRUCT).add(*[f for f in vcore.new_fns("A") if f.name in ("is_valid_buffer_size", "validate_size", "new", "new_with_color", "new_from_raw")]).add(
        *vcore.getters()).add(*vcore.pixel_fns("A")).add(*vcore.tol_fns()).add(*ctors()).add(*accessors())


def unit_maps():
    yield Unit("c24_maps", lambda: prelude("A") + SPEC_CALLS + WIT + image_struct() + STRUCT).add(*vcore.getters()).add(*buffer_maps()).add(ctors()[-1]).add(*[colour_fn(n) for n in MAPS])


def unit_ops():
    def pre():
        names = SAME + INPLACE + OTHER
        return prelude("A") + SPEC_CALLS + enums() + image_struct() + STRUCT + "".join(decl(n) for n in names) + PCT
    u = Unit("c24_ops", pre, real=True).add(*vcore.getters()).add(ctors()[-1], *[a for a in accessors() if a.name in ("width", "height", "buffer")])
    for n in SAME: u.add(img_fn(n))
    for n in INPLACE: u.add(inplace_fn(n))
    u.add(img_fn("rotate", args=["@p1", "bg_or_none(self.bg_color)", "@p2"]))
    u.add(img_fn("with_jpeg_quality", "jpeg_quality"))
    u.add(img_fn("white_balance", "balance", args=["BalanceMode::Rgb", "@p1"]))
    u.add(img_fn("blend", "blend_image"))
    yield u


def unit_pct():
    S = "pct_len(self.buffer.%s(), @p1.r())"
    yield Unit("c24_pct", lambda: prelude("A") + SPEC_CALLS + enums() + image_struct() + STRUCT + decl("resize") + PCT, real=True).add(*vcore.getters()).add(ctors()[-1], *[a for a in accessors() if a.name in ("width", "height", "buffer")]).add(
        img_fn("resize"), Fn(IM, "resize_pct", "Image", ens=["rel_resize(self.buffer, %s as u32, %s as u32, @p2, r.buffer)" % (S % "w", S % "h"), "r.bg_color == self.bg_color"],
                             entry="proof { pct(self.buffer.w(), @p1.r()); pct(self.buffer.h(), @p1.r()); }"))


PCT = r'''
/// a dimension scaled to p percent: rounded to the nearest integer, at least 1 (and at most u32::MAX)
pub open spec fn pct_len(n: int, p: real) -> int { let s = rround((n as real) * (p / 100real)); if s < 1 { 1 } else if s > u32::MAX { u32::MAX as int } else { s } }
pub proof fn pct(n: int, p: real) ensures 1 <= pct_len(n, p) <= u32::MAX, rtrunc(rround((n as real) * (p / 100real)) as real) == rround((n as real) * (p / 100real)), (n as real) * (p / 100real) == (p / 100real) * (n as real), (n as real) * p / 100real == (n as real) * (p / 100real) 
{ int_trunc(rround((n as real) * (p / 100real)));
  assert((n as real) * (p / 100real) == (p / 100real) * (n as real)) by (nonlinear_arith); assert((n as real) * p / 100real == (n as real) * (p / 100real)) by (nonlinear_arith); }
pub proof fn int_trunc(n: int) ensures rtrunc(n as real) == n { assert((n as real).floor() == n); assert(0real - n as real == (-n) as real); assert(((-n) as real).floor() == -n); }
'''


def unit_compose():
    def pre():
        return prelude("A") + SPEC_CALLS + image_struct() + STRUCT + "".join(compose_decl(n) for n in CALLS)
    yield Unit("c24_compose", pre).add(*[f for f in ctors() if f.name == "new_from_buffer_with_meta"]).add(*[compose_img(n) for n in CALLS])


def uncodecs(b):
    """`codecs::f` -> `f`"""
    return rast.rewrite(b, lambda n: dict(n, p=re.sub(r"^(?:crate\s*::\s*)?(?:codecs|d10_codecs)\s*::\s*", "", n["p"])) if n.get("k") == "path" and "::" in n["p"] else n)


IO = r'''
#[verifier::external_body] pub struct Path { x: u8 }
/// names of files, however they are passed
pub trait VAsRef: Sized { spec fn sp(self) -> Path; fn as_ref(&self) -> (r: &Path) ensures *r == self.sp(); }
impl VAsRef for &Path { open spec fn sp(self) -> Path { *self } fn as_ref(&self) -> (r: &Path) { *self } }
#[verifier::external_body] pub struct DecodingError { x: u8 }
#[verifier::external_body] pub struct EncodingError { x: u8 }
/// what the codec functions do with their arguments (C16 to C18 say more)
pub uninterp spec fn rel_decode_file(p: Path, r: Result<DecodedImage, DecodingError>) -> bool;
pub uninterp spec fn rel_decode_buffer(b: Seq<u8>, r: Result<DecodedImage, DecodingError>) -> bool;
pub uninterp spec fn rel_encode<W>(w0: W, w1: W, b: PixelBuffer<Rgb>, f: EncodingFormat, r: Result<(), EncodingError>) -> bool;
pub uninterp spec fn rel_encode_to_file(p: Path, b: PixelBuffer<Rgb>, f: Option<EncodingFormat>, r: Result<(), EncodingError>) -> bool;
#[verifier::external_body] pub fn decode_file<P: VAsRef>(path: P) -> (r: Result<DecodedImage, DecodingError>) ensures rel_decode_file(path.sp(), r) { unimplemented!() }
#[verifier::external_body] pub fn decode_buffer(buffer: &[u8]) -> (r: Result<DecodedImage, DecodingError>) ensures rel_decode_buffer(buffer@, r) { unimplemented!() }
#[verifier::external_body] pub fn encode<W>(w: &mut W, buffer: &PixelBuffer<Rgb>, format: EncodingFormat) -> (r: Result<(), EncodingError>) ensures rel_encode(*old(w), *final(w), *buffer, format, r) { unimplemented!() }
#[verifier::external_body] pub fn encode_to_file<P: VAsRef>(path: P, buffer: &PixelBuffer<Rgb>, format: Option<EncodingFormat>) -> (r: Result<(), EncodingError>) ensures rel_encode_to_file(path.sp(), *buffer, format, r) { unimplemented!() }
'''


def unit_io():
    import vfmt, vcmd
    def pre():
        t = prelude("A") + SPEC_CALLS + image_struct() + STRUCT
        t += "#[derive(Clone, Copy)] #[verifier::external_body] pub struct JpegSamplingFactor { x: u8 }\n"
        for rel, n in (("png", "PngColorType"), ("png", "PngCompression"), ("png", "PngFilterType"), ("bmp", "BmpColorType"), ("ico", "IcoColorType"), ("webp", "WebPPreset")): t += "#[derive(Clone, Copy)]\n" + vcmd.typeitem("d10-codecs/src/%s.rs" % rel, n)
        return t + "#[derive(Clone, Copy)]\n" + vcmd.typeitem(vfmt.LIB, "EncodingFormat") + vcmd.typeitem(vfmt.LIB, "DecodedImage") + IO
    got = lambda rel, a: "exists|q: Result<DecodedImage, DecodingError>| #[trigger] %s(%s, q) && (match q { Ok(d) => r is Ok && r->Ok_0.buffer == d.buffer && r->Ok_0.bg_color is None, Err(e) => r is Err })" % (rel, a)
    k = dict(subst=(uncodecs,), where=[])
    u = Unit("c24_io", pre).add(*vcore.getters()).add(*[f for f in ctors() if f.name == "new_from_buffer"], *[a for a in accessors() if a.name == "buffer"])
    u.add(Fn(IM, "open", "Image", generics=["P: VAsRef"], ens=[got("rel_decode_file", "@p0.sp()")], **k))
    u.add(Fn(IM, "read_from_buffer", "Image", ens=[got("rel_decode_buffer", "@p0@")], **k))
    u.add(Fn(IM, "save", "Image", generics=["P: VAsRef"], ens=["rel_encode_to_file(@p1.sp(), self.buffer, None, r)"], **k))
    u.add(Fn(IM, "save_with_format", "Image", generics=["P: VAsRef"], ens=["rel_encode_to_file(@p1.sp(), self.buffer, Some(@p2), r)"], **k))
    u.add(Fn(IM, "save_to_writer", "Image", generics=["W"], ens=["rel_encode(*old(@p1), *final(@p1), self.buffer, @p2, r)"], **k))
    u.add(Fn(IM, "save_to_buffer", "Image", ens=["exists|v: Vec<u8>, o: Vec<u8>, q: Result<(), EncodingError>| v@.len() == 0 && #[trigger] rel_encode(v, o, self.buffer, @p1, q) && (match q { Ok(_) => r == Ok::<Vec<u8>, EncodingError>(o), Err(e) => r is Err })"], **k))
    yield u
