"""Contracts of the Python module's wrappers (C25): each method is the Rust operation of its name on the wrapped value."""
import re
import native, os, rast
from rast import Unsupported
from weave import Fn, Loop, Unit, split_top
import vimg
from vcmd import typeitem
import vfmt

PI, PC, PL, IM = "d10-python/src/image.rs", "d10-python/src/color.rs", "d10-python/src/lib.rs", "d10/src/image.rs"
CODE = "d10-codecs/src/"

# what an omitted argument stands for: (method, number of the argument) -> value
DEFAULTS = {
    ("rotate", 2): "FilterMode::Bilinear", ("resize", 3): "FilterMode::Bilinear", ("resize_pct", 2): "FilterMode::Bilinear", ("edge_detection", 1): "EdgeDetection::Sobel",
    ("with_jpeg_quality", 2): "true", ("unsharp", 2): "1.0f32", ("drawing", 2): "DrawingMode::Colored", ("despeckle", 1): "0.1f32", ("despeckle", 2): "1u8",
    ("symmetric_nearest_neighbor", 1): "4usize", ("symmetric_nearest_neighbor", 2): "true", ("blend", 2): "BlendOp::Normal", ("blend", 3): "1.0f32", ("stretch_contrast", 1): "0.5f32",
    ("optimize_saturation", 1): "1.0f32", ("optimize_saturation", 2): "SaturationMode::Hsl", ("change_color_temperature", 3): "0.0f32", ("optimize_color_temperature", 2): "0.0f32",
    ("white_balance", 1): "0.5f32", ("balance", 1): "BalanceMode::Rgb", ("balance", 2): "0.5f32", ("equalize", 1): "EqualizeMode::Srgb",
}
# order of the arguments where the Python one differs from the operation's
ORDER = {"optimize_saturation": (1, 2)}
FMT = {"jpeg": ("Jpeg", ("quality", "progressive", "sampling_factor", "grayscale", "optimize_huffman_tables"), ("85u8", "false", None, "false", "true")),
       "png": ("Png", ("color_type", "compression", "filter"), ("PngColorType::Rgba8", "PngCompression::Default", "PngFilterType::Sub")),
       "bmp": ("Bmp", ("color_type",), ("BmpColorType::Rgba8",)), "ico": ("Ico", ("color_type",), ("IcoColorType::Rgba8",)), "webp": ("WebP", ("quality", "preset"), ("85u8", "WebPPreset::Default"))}

BASE = r'''
#[verifier::external_body] pub fn vpanic() -> ! requires false { panic!() }
/// an exception; which one and its text are not looked at
#[verifier::external_body] pub struct PyErr { x: u8 }
pub type PyResult<T> = Result<T, PyErr>;
#[verifier::external_body] pub fn v_pyerr() -> (r: PyErr) { unimplemented!() }
#[verifier::external_body] pub struct ParseErr { x: u8 }
/// what a name of a mode stands for (FromStr of its type)
pub uninterp spec fn parsed<T>(s: Seq<char>) -> Option<T>;
pub trait VParse { spec fn txt(&self) -> Seq<char>; fn v_parse<T>(&self) -> (r: Result<T, ParseErr>) ensures (r is Ok) == (parsed::<T>(self.txt()) is Some), r is Ok ==> Some(r->Ok_0) == parsed::<T>(self.txt()); }
impl VParse for str { open spec fn txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_parse<T>(&self) -> (r: Result<T, ParseErr>) { unimplemented!() } }
impl VParse for String { open spec fn txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_parse<T>(&self) -> (r: Result<T, ParseErr>) { unimplemented!() } }
/// IntoPyErr: an error becomes an exception
pub trait VPyErr<T>: Sized { spec fn ok(self) -> Option<T>; fn py_err(self) -> (r: PyResult<T>) ensures (r is Ok) == (self.ok() is Some), r is Ok ==> Some(r->Ok_0) == self.ok(); }
impl<T, E> VPyErr<T> for Result<T, E> { open spec fn ok(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } } fn py_err(self) -> (r: PyResult<T>) { match self { Ok(x) => Ok(x), Err(_) => Err(v_pyerr()) } } }
/// Into, by the From of the wrapper
pub trait VInto<T>: Sized { spec fn to(self) -> T; fn v_into(self) -> (r: T) ensures r == self.to(); }
/// the name of a default stands for the default (FromStr, checked on its own)
pub open spec fn or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub open spec fn parsed_or<T>(o: Option<&str>, d: T) -> Option<T> { match o { Some(s) => parsed::<T>(s@), None => Some(d) } }
pub open spec fn parsed_or_s<T>(o: Option<String>, d: T) -> Option<T> { match o { Some(s) => parsed::<T>(s@), None => Some(d) } }
pub open spec fn parsed_opt_s<T>(o: Option<String>) -> Option<Option<T>> { match o { Some(s) => match parsed::<T>(s@) { Some(x) => Some(Some(x)), None => None }, None => Some(None) } }
'''


def calls(b):
    """the conversions and error constructors by the names the preamble gives them"""
    def g(n):
        if n.get("k") == "mcall" and n["m"] in ("into", "parse") and not n["a"]: return dict(n, m="v_" + n["m"])
        if n.get("k") == "call" and n["f"].get("k") == "path" and re.match(r"^(?:\w+::)*Py\w+::new_err$", n["f"]["p"].replace(" ", "")): return rast.call("v_pyerr")
        return n
    return rast.rewrite(b, g)


def d10(t):
    """types of the operation's signature as the bindings name them"""
    t = re.sub(r"\b(Image|Self)\b", "D10Image", t.strip())
    t = re.sub(r"\bRgb\b", "D10Rgb", t)
    return re.sub(r"\bEncodingFormat\b", "D10EncodingFormat", t)


def sig(f, conv=d10):
    ps = [(p["p"]["n"], conv(p["ty"])) for p in f["params"] if not p["self"]]
    slf = [p["t"].replace(" ", "") for p in f["params"] if p["self"]]
    return (slf[0] if slf else None), ps, conv(f["ret"]) if f["ret"] else None


def rel_decl(f, ty, conv=d10, pre="im_"):
    """the operation as a trusted callee with an uninterpreted relation between arguments and result"""
    slf, ps, ret = sig(f, conv)
    if "P" in (f["generics"] or "") : ps = [(n, "&str" if t == "P" else t) for n, t in ps]
    sp, ex = [], []
    if slf: sp.append(ty); ex.append("*old(self)" if "mut" in slf else "*self" if slf.startswith("&") else "self")
    for n, t in ps:
        if t.startswith("Vec<"): sp.append("Seq" + t[3:]); ex.append(n + "@")
        elif t == "&str": sp.append("Seq<char>"); ex.append(n + "@")
        elif t.startswith("&mut"): raise Unsupported("signature of " + f["name"])
        elif t.startswith("&"): sp.append(t[1:].strip()); ex.append("*" + n)
        else: sp.append(t); ex.append(n)
    if slf and "mut" in slf: sp.append(ty); ex.append("*final(self)")
    if ret: sp.append(ret[1:].strip() if ret.startswith("&") else ret); ex.append("*r" if ret.startswith("&") else "r")
    n = f["name"]
    q = "pub uninterp spec fn %s%s(%s) -> bool;\n" % (pre, n, ", ".join("a%d: %s" % z for z in enumerate(sp)))
    s = "    #[verifier::external_body] pub fn %s(%s)%s ensures %s%s(%s) { unimplemented!() }\n" % (n, ", ".join(([{"&self": "&self", "&mutself": "&mut self", "self": "self"}[slf]] if slf else []) + ["%s: %s" % z for z in ps]), " -> (r: %s)" % ret if ret else "", pre, n, ", ".join(ex))
    return q, s


def names_in(rel, owner):
    return [x["name"] for x in rast.load(rel) if x["k"] == "fnitem" and x["owner"] == owner and not x["trait"]]


SKIP = ("mod_colors", "mod_colors_enumerated", "map_colors", "map_colors_enumerated", "compose", "to_np_array", "from_np_array", "from_list", "to_list", "__len__", "__getitem__", "__setitem__", "new", "open", "save", "get_width", "get_height", "get_pixel", "get_pixel_clamped", "put_pixel")


def delegated():
    """methods of the wrapper with the name of a method of the image they wrap"""
    own = names_in(IM, "Image")
    r = []
    for n in names_in(PI, "Image"):
        if n in SKIP: continue
        if n not in own: raise Unsupported("method %s of the Python image has no operation of its name" % n)
        r.append(n)
    return r


def default(n, i):
    if (n, i) not in DEFAULTS: raise Unsupported("default of argument %d of %s" % (i, n))
    return DEFAULTS[(n, i)]


def deleg(n):
    """contract of one delegating method"""
    py, op = rast.find(PI, n, "Image"), rast.find(IM, n, "Image")
    slf, ps, ret = sig(py, lambda t: t.replace(" ", ""))
    s2, want, r2 = sig(op)
    if len(ps) != len(want) or ("mut" in s2 and "mut" not in slf): raise Unsupported("parameters of " + n)
    args, conds = [], []
    for i, ((pn, pt), (wn, wt)) in enumerate(zip(ps, want), 1):
        a, wt = "@p%d" % i, wt.replace(" ", "")
        if pt in ("&Image", "&Rgb"): args.append(a + ".inner")
        elif pt == wt: args.append(a)
        elif pt == "Option<%s>" % wt: args.append("or::<%s>(%s, %s)" % (wt, a, default(n, i)))
        elif pt == "Option<&str>":
            q = "parsed_or::<%s>(%s, %s)" % (wt, a, default(n, i))
            args.append(q + "->Some_0"); conds.append(q + " is Some")
        else: raise Unsupported("parameter %s of %s" % (pn, n))
    rn = "im_" + n
    mut = "mut" in s2
    pyres = ret is not None and ret.startswith("PyResult<")
    inner = ret[9:-1] if pyres else ret
    rv = "r->Ok_0" if pyres else "r"
    a = (["old(self).inner"] if mut else ["self.inner"]) + args + (["final(self).inner"] if mut else [])
    if inner is not None: a.append(rv + ".inner" if inner == "Image" else rv)
    if mut and inner is None:
        ens = ["%s(%s)" % (rn, ", ".join(a))]
    elif pyres:
        ens = ["(r is Ok) == (%s)" % (" && ".join(conds) or "true"), "r is Ok ==> %s(%s)" % (rn, ", ".join(a))]
    else:
        if conds: raise Unsupported("errors of " + n)
        ens = ["%s(%s)" % (rn, ", ".join(a))]
    return Fn(PI, n, "Image", ens=ens, subst=(calls,), entry="proof { default_names(); }" if n in ("drawing", "blend", "optimize_saturation") else "")


def formats():
    r = [Fn(PI, "gif", "EncodingFormat", ens=["r.inner == D10EncodingFormat::Gif"])]
    for n, (v, fields, defs) in FMT.items():
        py = rast.find(PI, n, "EncodingFormat")
        _, ps, ret = sig(py, lambda t: t.replace(" ", ""))
        if [p[0] for p in ps] != list(fields): raise Unsupported("parameters of " + n)
        fl, conds = [], []
        for i, ((pn, pt), d) in enumerate(zip(ps, defs)):
            a = "@p%d" % i
            ty = d.split("::")[0] if d and "::" in d else None
            if pt == "Option<&str>": q = "parsed_or::<%s>(%s, %s)" % (ty, a, d)
            elif pt == "Option<String>" and d is None: q = "parsed_opt_s::<JpegSamplingFactor>(%s)" % a
            elif pt == "Option<String>": q = "parsed_or_s::<%s>(%s, %s)" % (ty, a, d)
            else:
                fl.append("%s: or(%s, %s)" % (pn, a, d)); continue
            conds.append(q + " is Some"); fl.append("%s: %s->Some_0" % (pn, q))
        r.append(Fn(PI, n, "EncodingFormat", subst=(calls,), ens=["(r is Ok) == (%s)" % " && ".join(conds), "r is Ok ==> r->Ok_0.inner == (D10EncodingFormat::%s { %s })" % (v, ", ".join(fl))]))
    return r


def image_pre():
    t = BASE + "#[verifier::external_body] pub struct D10Image { x: u8 }\n#[verifier::external_body] #[derive(Clone, Copy)] pub struct D10Rgb { x: u8 }\n"
    t += "pub struct Image { pub inner: D10Image }\npub struct Rgb { pub inner: D10Rgb }\npub struct EncodingFormat { pub inner: D10EncodingFormat }\n#[verifier::external_body] pub struct DecodingError { x: u8 }\n#[verifier::external_body] pub struct EncodingError { x: u8 }\n"
    t += "#[verifier::external_body] #[derive(Clone, Copy)] pub struct JpegSamplingFactor { x: u8 }\n"
    for rel, n in (("png", "PngColorType"), ("png", "PngCompression"), ("png", "PngFilterType"), ("bmp", "BmpColorType"), ("ico", "IcoColorType"), ("webp", "WebPPreset")): t += "#[derive(Clone, Copy)]\n" + typeitem(CODE + rel + ".rs", n)
    t += "#[derive(Clone, Copy)]\n" + typeitem(CODE + "lib.rs", "EncodingFormat").replace("EncodingFormat", "D10EncodingFormat", 1)
    t += "impl D10EncodingFormat { #[verifier::external_body] pub fn clone(&self) -> (r: D10EncodingFormat) ensures r == *self { unimplemented!() } }\n"
    t += vimg.enums()
    t += "impl VInto<Image> for D10Image { open spec fn to(self) -> Image { Image { inner: self } } fn v_into(self) -> (r: Image) { Image::from_d10(self) } }\n"
    t += "impl VInto<Rgb> for D10Rgb { open spec fn to(self) -> Rgb { Rgb { inner: self } } #[verifier::external_body] fn v_into(self) -> (r: Rgb) { unimplemented!() } }\n"
    t += "impl VInto<Rgb> for &D10Rgb { open spec fn to(self) -> Rgb { Rgb { inner: *self } } #[verifier::external_body] fn v_into(self) -> (r: Rgb) { unimplemented!() } }\n"
    t += '/// proved of FromStr in the unit c25_names\n#[verifier::external_body] pub proof fn default_names() ensures parsed::<DrawingMode>("default"@) == Some(DrawingMode::Colored), parsed::<BlendOp>("normal"@) == Some(BlendOp::Normal), parsed::<SaturationMode>("hsl"@) == Some(SaturationMode::Hsl) {}\n'
    q, s = "", ""
    for n in delegated() + ["new", "new_with_color", "new_from_raw", "open", "save", "save_with_format", "width", "height", "get_pixel_optional", "get_pixel_clamped", "put_pixel"]:
        a, b = rel_decl(rast.find(IM, n, "Image"), "D10Image")
        q += a; s += b
    t += q + "impl D10Image {\n" + s + "    pub uninterp spec fn px(&self) -> Seq<D10Rgb>;\n    #[verifier::external_body] pub fn data(&self) -> (r: &[D10Rgb]) ensures r@ == self.px() { unimplemented!() }\n}\n"
    return t


def oks(b):
    """Option::ok_or / ok_or_else and Option::map with a closure that cannot leave the function, as the matches they abbreviate"""
    O = {"k": "id", "n": "_o", "mut": False, "ref": False, "sub": None}
    v = lambda k, x, p=O: {"k": "arm", "p": {"k": "tstruct", "p": k, "e": [p]} if k == "Some" else {"k": "path", "p": k}, "g": None, "b": x}

    def g(n):
        # a vector consumed by an iteration that copies from its elements
        if n.get("k") == "mcall" and n["m"] == "into_iter" and n["e"].get("k") == "path": return dict(n, m="iter")
        if n.get("k") == "mcall" and n["m"] in ("ok_or_else", "ok_or") and len(n["a"]) == 1:
            e = n["a"][0]
            if n["m"] == "ok_or_else":
                c = rast.strip(e)
                if c["k"] != "closure" or c["p"]: raise Unsupported("ok_or_else")
                e = c["b"]
            return {"k": "match", "e": n["e"], "arms": [v("Some", rast.call("Ok", rast.path("_o"))), v("None", rast.call("Err", e))]}
        if n.get("k") == "mcall" and n["m"] in ("map", "and_then") and len(n["a"]) == 1 and not any(x.get("k") == "mcall" and x["m"] in ("iter", "into_iter") for x in rast.walk(n["e"])):
            c = rast.strip(n["a"][0])
            if c["k"] == "path": c = {"k": "closure", "p": [O], "b": rast.call(c["p"], rast.path("_o"))}
            if c["k"] != "closure" or len(c["p"]) != 1 or any(x.get("k") in ("return", "try") for x in rast.walk(c["b"])): raise Unsupported("map of an option")
            return {"k": "match", "e": n["e"], "arms": [v("Some", rast.call("Some", c["b"]) if n["m"] == "map" else c["b"], c["p"][0]), v("None", rast.path("None"))]}
        return n
    return rast.rewrite(b, g)


NAMES = {
    ("d10-ops/src/edge_detection.rs", "EdgeDetection"): "sobel laplace default=Sobel",
    ("d10-ops/src/drawing.rs", "DrawingMode"): "gray colored reduced_colors default=Colored",
    ("d10-ops/src/saturation.rs", "SaturationMode"): "hsl hsv lch default=Hsl",
    ("d10-ops/src/balance_channels.rs", "BalanceMode"): "rgb srgb hsv hsl lch",
    ("d10-ops/src/filters.rs", "FilterMode"): "nearest bilinear bicubic lanczos3 auto Lanczos=Lanczos3 default=Auto",
    ("d10-ops/src/equalize.rs", "EqualizeMode"): "rgb srgb saturation lightness saturation_lightness",
    ("d10-ops/src/blend.rs", "BlendOp"): "normal addition subtract darken lighten hsl_darken hsl_lighten lch_darken lch_lighten lch_hue lch_saturation lch_color",
    (CODE + "png.rs", "PngColorType"): "l8 la8 l16 la16 rgb8 rgba8 rgb16 rgba16",
    (CODE + "png.rs", "PngFilterType"): "no_filter sub up avg paeth",
    (CODE + "png.rs", "PngCompression"): "default fast best",
    (CODE + "webp.rs", "WebPPreset"): "default picture photo drawing icon text lossless",
    (CODE + "jpeg.rs", "JpegSamplingFactor"): "1x1=F_1_1 1x2=F_1_2 2x1=F_2_1 2x2=F_2_2 4x1=F_4_1 4x2=F_4_2 1x4=F_1_4 2x4=F_2_4 4:4:4=R_4_4_4 4:4:0=R_4_4_0 4:4:1=R_4_4_1 4:2:2=R_4_2_2 4:2:0=R_4_2_0 4:2:1=R_4_2_1 4:1:1=R_4_1_1 4:1:0=R_4_1_0",
    (CODE + "bmp.rs", "BmpColorType"): "l8 la8 rgb8 rgba8",
    (CODE + "ico.rs", "IcoColorType"): "l8 la8 rgb8 rgba8",
    ("d10-core/src/color/rgb.rs", "Intensity"): "average rec601luma=Rec601Luma rec709luma=Rec709Luma brightness lightness saturation red green blue default=Rec709Luma",
}


def table(e):
    r = []
    for w in NAMES[e].split():
        n, _, v = w.partition("=")
        r.append((n, v or "".join(x.capitalize() for x in n.split("_"))))
    return r


def names_pre(e):
    def go():
        ns = [n for n, _ in table(e)]
        d = [(a, b) for i, a in enumerate(ns) for b in ns[i + 1:]]
        t = BASE + vfmt.STR_EQ + vfmt.EDIT + typeitem(*e).replace("pub enum", "#[derive(Clone, Copy)]\npub enum") + "#[verifier::external_body] pub struct ParseEnumError { x: u8 }\nimpl ParseEnumError { #[verifier::external_body] pub fn new(v: &str, t: &str) -> (r: ParseEnumError) { unimplemented!() } }\n"
        t += "pub open spec fn by_name(s: Seq<char>) -> Option<%s> { %s { None } }\n" % (e[1], " ".join('if s == "%s"@ { Some(%s::%s) } else' % (n, e[1], v) for n, v in table(e)))
        return t + vfmt.distinct(ns)
    return go


def use_variants(e):
    """`use Enum::*;` inside the function: the variants by their full names"""
    vs = re.findall(r"(?m)^\s*(\w+)\s*,?\s*$", re.sub(r"//[^\n]*|#\s*\[[^\]]*\]", "", typeitem(*e)[typeitem(*e).index("{") + 1:].rstrip().rstrip("}")).replace(",", ",\n"))

    def go(b):
        def g(n):
            if n.get("k") == "path" and n["p"] in vs: return dict(n, p=e[1] + "::" + n["p"])
            if n.get("k") == "path" and n["p"].startswith("Self::"): return dict(n, p=e[1] + n["p"][4:])
            if n.get("k") == "block": return dict(n, st=[s for s in n["st"] if not (s["k"] == "item" and re.match(r"^\s*use\b", s.get("t") or ""))])
            return n
        return rast.rewrite(b, g)
    return go


def unit_name(e):
    u = Unit("c28_" + e[1].lower(), names_pre(e))
    u.add(Fn(e[0], "from_str", e[1], trait="FromStr", retty=lambda t: (t or "").replace("Self::Err", "ParseEnumError").replace("Self :: Err", "ParseEnumError"), presub=(use_variants(e), vfmt.edits), subst=(vfmt.strmatch,), entry="proof { names_differ(); }", ens=["(r is Ok) == (by_name(@p0@) is Some)", "r is Ok ==> Some(r->Ok_0) == by_name(@p0@)"]))
    return u


def unit_names(): return (unit_name(e) for e in NAMES)


def unit():
    u = Unit("c25_image", image_pre)
    u.add(Fn(PI, "from", "Image", trait="From<D10Image>", as_name="from_d10", ens=["r.inner == @p0"], subst=(calls,)))
    for n in delegated(): u.add(deleg(n))
    W = lambda n, e, **k: Fn(PI, n, "Image", ens=e, presub=(oks,), subst=(calls,), **k)
    u.add(W("new", ["@p2 is None ==> im_new(@p0, @p1, r.inner)", "@p2 is Some ==> im_new_with_color(@p0, @p1, @p2->Some_0.inner, r.inner)"]),
          W("get_width", ["im_width(self.inner, r)"]), W("get_height", ["im_height(self.inner, r)"]),
          W("open", ["exists|q: Result<D10Image, DecodingError>| #[trigger] im_open(@p0@, q) && (q is Ok) == (r is Ok) && (r is Ok ==> q->Ok_0 == r->Ok_0.inner)"]),
          W("save", ["@p2 is None ==> exists|q: Result<(), EncodingError>| #[trigger] im_save(old(self).inner, @p1@, q) && (q is Ok) == (r is Ok)",
                     "@p2 is Some ==> exists|q: Result<(), EncodingError>| #[trigger] im_save_with_format(old(self).inner, @p1@, @p2->Some_0.inner, q) && (q is Ok) == (r is Ok)", "final(self).inner == old(self).inner"]),
          W("get_pixel", ["exists|q: Option<&D10Rgb>| #[trigger] im_get_pixel_optional(self.inner, @p1, @p2, q) && (q is Some) == (r is Some) && (r is Some ==> r->Some_0.inner == *(q->Some_0))"]),
          W("get_pixel_clamped", ["im_get_pixel_clamped(self.inner, @p1, @p2, r.inner)"]),
          W("put_pixel", ["im_put_pixel(old(self).inner, @p1, @p2, @p3.inner, final(self).inner)"]),
          W("__setitem__", ["im_put_pixel(old(self).inner, @p1.0, @p1.1, @p2.inner, final(self).inner)"]),
          W("__getitem__", ["exists|q: Option<&D10Rgb>| #[trigger] im_get_pixel_optional(self.inner, @p1.0, @p1.1, q) && (q is Some) == (r is Ok) && (r is Ok ==> r->Ok_0.inner == *(q->Some_0))"]),
          W("__len__", ["r is Ok && r->Ok_0 == self.inner.px().len()"]),
          W("to_list", ["r@.len() == self.inner.px().len()", "forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).inner == self.inner.px()[i]"], tags=["collect"],
            loops=[Loop(["_n0 == self.inner.px().len()", "0 <= _i0 <= _n0", "_v0@.len() == _i0", "forall|i: int| 0 <= i < _i0 ==> (#[trigger] _v0@[i]).inner == self.inner.px()[i]"], ty="Rgb")]),
          W("from_list", ["im_new_from_raw(@p0, @p1, Seq::new(@p2@.len(), |i: int| @p2@[i].inner), r.inner)"], tags=["collect"],
            loops=[Loop(["_n0 == @p2@.len()", "0 <= _i0 <= _n0", "_v0@.len() == _i0", "forall|i: int| 0 <= i < _i0 ==> (#[trigger] _v0@[i]) == @p2@[i].inner"], ty="D10Rgb", after="assert(_v0@ =~= Seq::new(@p2@.len(), |i: int| @p2@[i].inner));")]))
    u.add(*formats())
    yield u


# ------------------------------------------------------------------ the colour types, one expansion of the macro each
RGBRS = "d10-core/src/color/rgb.rs"
ILL, OBS = ("D65", "D50", "E"), (("2", "O2"), ("10", "O10"))
RGB_FNS = ("is_grayscale", "to_gray", "to_gray_with_intensity", "invert", "difference", "with_gamma", "with_gamma_opt", "with_level", "with_brightness", "with_saturation", "stretch_saturation", "with_gamma_saturation", "with_lightness",
           "with_hue_rotate", "with_contrast", "with_brightness_contrast", "alpha_blend", "with_vibrance", "with_sepia", "max", "min", "modulate")


def close(t, i):
    """end of the bracket that opens at i"""
    d, o = 0, {"(": ")", "{": "}", "[": "]"}[t[i]]
    for j in range(i, len(t)):
        if t[j] == t[i]: d += 1
        elif t[j] == o:
            d -= 1
            if d == 0: return j
    raise Unsupported("brackets")


def expansions():
    """type -> (arguments of the macro, text of its expansion); the textual substitution macro_rules does for single-identifier arguments"""
    try: t = open(os.path.join(native.REPO, PC)).read()
    except OSError: raise Unsupported("no " + PC)
    t = re.sub(r"(?m)//[^\n]*$", "", t)
    m = re.search(r"macro_rules!\s*color_type\s*\{", t)
    if not m: raise Unsupported("macro color_type not found (anchor lost)")
    e = close(t, m.end() - 1)
    mac = t[m.end():e]
    a = mac.index("("); b = close(mac, a)
    pat = mac[a + 1:b]
    c = mac.index("{", b); d = close(mac, c)
    body = mac[c + 1:d]
    if mac[d + 1:].strip() not in ("", ";"): raise Unsupported("macro color_type has several arms")
    vs = re.findall(r"\$(\w+)\s*:\s*ident", pat)
    rest = re.sub(r"\$(\w+)\s*:\s*ident\s*,?", "", pat).replace(" ", "").strip()
    if rest != "$($function:item)*" or "$($function)*" not in body: raise Unsupported("pattern of color_type")
    out = {}
    for k in re.finditer(r"(?<![\w!])color_type!\s*\(", t[e:]):
        s = e + k.end() - 1
        args = t[s + 1:close(t, s)]
        q = re.match(r"\s*(?:\w+\s*,\s*){%d}\w+" % (len(vs) - 1), args)
        if not q: raise Unsupported("arguments of color_type")
        ids = [x.strip() for x in q.group(0).split(",")]
        x = body.replace("$($function)*", args[q.end():].lstrip().lstrip(","))
        for v, i in sorted(zip(vs, ids), key=lambda z: -len(z[0])): x = re.sub(r"\$%s\b" % v, i, x)
        if "$" in x: raise Unsupported("color_type")
        out[ids[0]] = (ids, x)
    return out


def drop_uses(b):
    return rast.rewrite(b, lambda n: dict(n, st=[s for s in n["st"] if not (s["k"] == "item" and re.match(r"^\s*use\b", s.get("t") or ""))]) if n.get("k") == "block" else n)


def pairmatch(b):
    """a match over a pair of texts is the chain of comparisons it abbreviates, in its order"""
    def g(n):
        if n.get("k") == "match" and rast.strip(n["e"]).get("k") == "tuple" and len(rast.strip(n["e"])["e"]) == 2 and any(rast.strip(a["p"]).get("k") == "tuple" for a in n["arms"]):
            es = rast.strip(n["e"])["e"]
            if any(rast.strip(x)["k"] != "path" for x in es) or n["arms"][-1]["p"]["k"] != "wild": raise Unsupported("match over texts")
            blk = lambda x: {"k": "block", "st": [{"k": "expr", "e": x, "semi": False}]}
            r = {"k": "blocke", "b": blk(n["arms"][-1]["b"])}
            for a in reversed(n["arms"][:-1]):
                p = rast.strip(a["p"])
                if a["g"] or p["k"] != "tuple" or any(rast.strip(x)["k"] != "lit" for x in p["e"]): raise Unsupported("match over texts")
                c = rast.binop("&&", *[rast.call("str_eq", x, rast.strip(y)) for x, y in zip(es, p["e"])])
                r = {"k": "if", "c": c, "t": blk(a["b"]), "e": r}
            return r
        return n
    return rast.rewrite(b, g)


def inner_of(ids): return ids[1]


def color_pre(ty, exps):
    def go():
        t = BASE + vfmt.STR_EQ + "#[verifier::external_body] pub struct Python { x: u8 }\n#[verifier::external_body] pub struct PyObj { x: u8 }\n/// the Python object made of a value of a wrapper type\npub uninterp spec fn is_py<T>(t: T, o: PyObj) -> bool;\n"
        t += "".join("pub struct %s { pub x: u8 }\n" % n for n in ILL + ("O2", "O10"))
        t += "".join("#[verifier::external_body] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(O)] pub struct %s<I, O> { i: I, o: O }\n" % n for n in ("D10Lab", "D10Lch"))
        for n, (ids, _) in exps.items():
            d = ids[1]
            m = re.match(r"^D10(Lab|Lch)(D65|D50|E)(O2|O10)$", d)
            t += "pub type %s = D10%s<%s, %s>;\n" % (d, *m.groups()) if m else "#[verifier::external_body] pub struct %s { x: u8 }\n" % d
            t += "pub struct %s { pub inner: %s }\n" % (n, d)
            t += "impl %s { #[verifier::external_body] pub fn into_py(self, py: Python) -> (r: PyObj) ensures is_py(self, r) { unimplemented!() } }\n" % n
            if n != ty: t += "impl VInto<%s> for %s { open spec fn to(self) -> %s { %s { inner: self } } #[verifier::external_body] fn v_into(self) -> (r: %s) { unimplemented!() } }\n" % (n, d, n, n, n)
        t += "impl VInto<%s> for %s { open spec fn to(self) -> %s { %s { inner: self } } fn v_into(self) -> (r: %s) { %s::from_d10(self) } }\n" % (ty, exps[ty][0][1], ty, ty, ty, ty)
        ids = exps[ty][0]
        d, vs = ids[1], list(ids[2:5])
        T = "%s" % d
        ext = "    #[verifier::external_body] pub fn "
        s = "impl %s {\n    pub uninterp spec fn s_new(a: f32, b: f32, c: f32, d: f32) -> %s;\n" % (T, T) + ext + "new_with_alpha(a: f32, b: f32, c: f32, d: f32) -> (r: %s) ensures r == %s::s_new(a, b, c, d) { unimplemented!() }\n" % (T, T)
        for v in vs + ["alpha"]:
            s += "    pub uninterp spec fn g_%s(self) -> f32;\n    pub uninterp spec fn s_%s(self, x: f32) -> %s;\n    pub uninterp spec fn w_%s(self, x: f32) -> %s;\n" % (v, v, T, v, T)
            s += ext + "%s(&self) -> (r: f32) ensures r == self.g_%s() { unimplemented!() }\n" % (v, v) + ext + "set_%s(&mut self, x: f32) ensures *final(self) == old(self).s_%s(x) { unimplemented!() }\n" % (v, v) + ext + "with_%s(&self, x: f32) -> (r: %s) ensures r == self.w_%s(x) { unimplemented!() }\n" % (v, T, v)
        for c in ("rgb", "srgb", "hsl", "hsv", "yuv", "xyz"):
            q = "D10" + c.capitalize()
            s += "    pub uninterp spec fn c_%s(self) -> %s;\n" % (c, q) + ext + "to_%s(&self) -> (r: %s) ensures r == self.c_%s() { unimplemented!() }\n" % (c, q, c)
        for c in ("Lab", "Lch"):
            s += "    pub uninterp spec fn c_%s<I, O>(self) -> D10%s<I, O>;\n" % (c.lower(), c) + ext + "to_%s<I, O>(&self) -> (r: D10%s<I, O>) ensures r == self.c_%s::<I, O>() { unimplemented!() }\n" % (c.lower(), c, c.lower())
        s += "    pub uninterp spec fn transp(self) -> bool;\n" + ext + "has_transparency(&self) -> (r: bool) ensures r == self.transp() { unimplemented!() }\n"
        s += "    pub uninterp spec fn text(self) -> Seq<char>;\n" + ext + "v_to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }\n"
        s += "    pub uninterp spec fn tname(self) -> Seq<char>;\n" + ext + "type_name(&self) -> (r: &str) ensures r@ == self.tname() { unimplemented!() }\n}\n"
        t += s
        if ty == "Rgb":
            t += "#[derive(Clone, Copy)]\n" + typeitem(RGBRS, "Intensity")
            q, s = "", ""
            for n in RGB_FNS:
                a, b_ = rel_decl(rast.find(RGBRS, n, "Rgb"), "D10Rgb", pre="rgb_")
                q += a; s += b_
            t += q + "impl D10Rgb {\n" + s + "}\nimpl Copy for D10Rgb {}\nimpl Clone for D10Rgb { #[verifier::external_body] fn clone(&self) -> (r: D10Rgb) { unimplemented!() } }\n"
        return t + vfmt.distinct(["D65", "D50", "E", "2", "10"])
    return go


def color_unit(ty, exps):
    ids, src = exps[ty]
    parts = re.split(r"(?=\bimpl\s+From\s*<)", src)
    if len(parts) != 3: raise Unsupported("items of color_type")
    refs = [i for i in (1, 2) if re.match(r"impl\s+From\s*<\s*&", parts[i])]
    if len(refs) != 1: raise Unsupported("items of color_type")
    byref, byval = parts[refs[0]], parts[3 - refs[0]]
    d, v, g, st, w = ids[1], ids[2:5], ids[5:8], ids[8:11], ids[11:14]
    u = Unit("c25_" + ty.lower(), color_pre(ty, exps))
    F = lambda n, ens, s=parts[0], **k: Fn(None, n, src=s, ens=ens, presub=(drop_uses, oks), subst=(pairmatch, calls), **k)
    u.add(F("from", ["r.inner == @p0"], byval, selfty=("", ty), as_name="from_d10"))
    u.add(F("new", ["r.inner == %s::s_new(@p0, @p1, @p2, or(@p3, 1.0f32))" % d]))
    for a, b, c, e in list(zip(v, g, st, w)) + [("alpha", "get_alpha", "set_alpha", "with_alpha")]:
        u.add(F(b, ["r == self.inner.g_%s()" % a]), F(c, ["final(self).inner == old(self).inner.s_%s(@p1)" % a]), F(e, ["r.inner == self.inner.w_%s(@p1)" % a]))
    for c in ("rgb", "srgb", "hsl", "hsv", "yuv", "xyz"): u.add(F("to_" + c, ["r.inner == self.inner.c_%s()" % c]))
    for c in ("Lab", "Lch"): u.add(F("to_" + c.lower(), illuminated(c, "@p2", "@p3", "self.inner.c_%s::<%%s, %%s>()" % c.lower()), entry="proof { names_differ(); }", retty=lambda t: "PyResult<PyObj>"))
    u.add(F("has_transparency", ["r == self.inner.transp()"]), F("__str__", ["r is Ok && r->Ok_0@ == self.inner.text()"]), F("__repr__", ["r is Ok && r->Ok_0@ == self.inner.text()"]), F("type_name", ["r@ == self.inner.tname()"]))
    if ty == "Rgb":
        for n in RGB_FNS:
            if n == "to_gray_with_intensity": continue
            if n == "to_gray":
                u.add(F(n, ["@p1 is None ==> r is Ok && rgb_to_gray(self.inner, r->Ok_0.inner)", "@p1 is Some ==> (r is Ok) == (parsed::<Intensity>(@p1->Some_0@) is Some) && (r is Ok ==> rgb_to_gray_with_intensity(self.inner, parsed::<Intensity>(@p1->Some_0@)->Some_0, r->Ok_0.inner))"]))
                continue
            op = rast.find(RGBRS, n, "Rgb")
            _, ps, ret = sig(op)
            args = ["@p%d" % i if "Rgb" not in t else "@p%d.inner" % i for i, (_, t) in enumerate(ps, 1)]
            u.add(F(n, ["rgb_%s(%s)" % (n, ", ".join(["self.inner"] + args + ["r.inner" if ret == "D10Rgb" else "r"]))]))
    return u


def illuminated(c, ill, obs, val):
    I, O = 'or(%s, "D65")@' % ill, 'or(%s, "2")@' % obs
    known = " || ".join('(%s == "%s"@ && %s == "%s"@)' % (I, i, O, o) for i in ILL for o, _ in OBS)
    return ["(r is Ok) == (%s)" % known] + ['%s == "%s"@ && %s == "%s"@ ==> is_py(%s%s%s { inner: %s }, r->Ok_0)' % (I, i, O, o, c, i, t, val % (i, t)) for i in ILL for o, t in OBS]


TYPES = ["Rgb", "Srgb", "Hsl", "Hsv", "Yuv", "Xyz"] + [c + i + t for c in ("Lab", "Lch") for i in ILL for _, t in OBS]


def unit_color(ty):
    exps = expansions()
    if sorted(exps) != sorted(TYPES): raise Unsupported("colour types of the module")
    return color_unit(ty, exps)


def unit_colors(): return (unit_color(t) for t in TYPES)
