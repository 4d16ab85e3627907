"""Contracts of format selection by file name and of the dispatch to decoders and encoders (C18), for every name, stream and image."""
import rast
from rast import Unsupported
from weave import Fn, Unit
import vcore
from vcmd import typeitem
from vcore import prelude

LIB, ERR = "d10-codecs/src/lib.rs", "d10-codecs/src/errors.rs"
NAMES = [("jpg", "Jpeg"), ("jpeg", "Jpeg"), ("png", "Png"), ("gif", "Gif"), ("bmp", "Bmp"), ("ico", "Ico"), ("webp", "WebP")]
FORMATS = ["Jpeg", "Png", "Gif", "Bmp", "Ico", "WebP"]
PAR = {"Png": ["PngColorType", "PngCompression", "PngFilterType"], "Gif": [], "Bmp": ["BmpColorType"], "Ico": ["IcoColorType"], "WebP": ["u8", "WebPPreset"], "Jpeg": ["u8", "bool", "Option<JpegSamplingFactor>", "bool", "bool"]}


STR_EQ = "#[verifier::external_body] pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }\n"


def texts():
    return distinct([n for n, _ in NAMES])


def distinct(names):
    """texts that differ, by length or by the first letter that does"""
    k = lambda a, b: next(i for i in range(len(a)) if a[i] != b[i])
    d = [(a, b) for i, a in enumerate(names) for b in names[i + 1:]]
    t = "pub proof fn names_differ() ensures\n" + ",\n".join('    "%s"@ != "%s"@' % z for z in d) + "\n{\n"
    t += "".join('    reveal_strlit("%s");\n' % a for a in names)
    for a, b in d:
        t += '    assert("%s"@ != "%s"@) by { %s }\n' % (a, b, 'assert("%s"@.len() != "%s"@.len());' % (a, b) if len(a) != len(b) else 'assert("%s"@[%d] != "%s"@[%d]);' % (a, k(a, b), b, k(a, b)))
    return t + "}\n"


def pre():
    t = prelude("A")
    t += "".join("#[derive(Clone, Copy)] #[verifier::external_body] pub struct %s { x: u8 }\n" % n for n in ("JpegSamplingFactor",))
    for rel, n in (("png", "PngColorType"), ("png", "PngCompression"), ("png", "PngFilterType"), ("bmp", "BmpColorType"), ("ico", "IcoColorType"), ("webp", "WebPPreset")):
        t += "#[derive(Clone, Copy)]\n" + typeitem("d10-codecs/src/%s.rs" % rel, n)
    t += "#[derive(Clone, Copy)]\n" + typeitem(LIB, "Format") + typeitem(LIB, "EncodingFormat") + "pub struct IoError { x: u8 }\n" + typeitem(ERR, "EncodingError") + typeitem(ERR, "DecodingError")
    t += "pub struct DecodedImage { x: u8 }\n"
    by = "".join('if s == "%s"@ { Some(Format::%s) } else ' % z for z in NAMES) + "{ None }"
    t += r'''
/// the letters of a text with A-Z replaced by a-z, as the standard library computes it
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
/// the format an extension, in lower case, stands for
pub open spec fn by_name(s: Seq<char>) -> Option<Format> { %s }
#[verifier::external_body] pub struct Path { x: u8 }
#[verifier::external_body] pub struct OsStr { x: u8 }
/// a text, however it is held
#[verifier::external_body] pub struct Txt { x: u8 }
impl Path {
    /// trusted: the part of the file name after its last dot, decoded (std documentation), none where there is none
    pub uninterp spec fn ext(&self) -> Option<Seq<char>>;
    /// the format the name selects
    pub open spec fn named(&self) -> Option<Format> { match self.ext() { Some(e) => by_name(lower(e)), None => None } }
    #[verifier::external_body] pub fn extension(&self) -> (r: Option<OsStr>) ensures (r is Some) == (self.ext() is Some), r is Some ==> r->Some_0.txt() == self.ext()->Some_0 { unimplemented!() }
    #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: Txt) { unimplemented!() }
}
impl OsStr {
    pub uninterp spec fn txt(&self) -> Seq<char>;
    #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: Txt) ensures r.txt() == self.txt() { unimplemented!() }
    #[verifier::external_body] pub fn to_ascii_lowercase(&self) -> (r: OsStr) ensures r.txt() == lower(self.txt()) { unimplemented!() }
}
impl Txt {
    pub uninterp spec fn txt(&self) -> Seq<char>;
    #[verifier::external_body] pub fn to_ascii_lowercase(&self) -> (r: Txt) ensures r.txt() == lower(self.txt()) { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.txt() { unimplemented!() }
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self.txt() { unimplemented!() }
    #[verifier::external_body] pub fn v_to_string(&self) -> (r: String) ensures r@ == self.txt() { unimplemented!() }
    #[verifier::external_body] pub fn into_owned(self) -> (r: Txt) ensures r == self { unimplemented!() }
}
%s/// names of files, however they are passed
pub trait VAsRef: Sized { spec fn sp(self) -> Path; fn as_ref(&self) -> (r: &Path) ensures *r == self.sp(); }
impl VAsRef for &Path { open spec fn sp(self) -> Path { *self } fn as_ref(&self) -> (r: &Path) { *self } }

/// where a reader stands: what its stream holds, the position, and whether its operations ever fail
pub ghost struct Src { pub bytes: Seq<u8>, pub at: int, pub faulty: bool }
pub trait VRead: Sized { spec fn src(&self) -> Src; }
/// what the decoder of a format gives for a stream
pub uninterp spec fn dec(f: Format, s: Src) -> Result<DecodedImage, DecodingError>;
/// the format a stream is recognised as (Format::from_reader, decided by Kani)
pub uninterp spec fn sig(b: Seq<u8>) -> Option<Format>;
/// the encoder of a format wrote this image to w with the result r
pub uninterp spec fn wrote<W>(w: W, b: PixelBuffer<Rgb>, f: Format, r: Result<(), EncodingError>) -> bool;
pub open spec fn fmt_of(e: EncodingFormat) -> Format { match e { %s } }
pub open spec fn chosen(e: Option<EncodingFormat>, p: Path) -> Format { match e { Some(x) => fmt_of(x), None => p.named()->Some_0 } }
pub struct Cursor<'a> { pub b: &'a [u8], pub ghost_at: Ghost<int> }
impl<'a> Cursor<'a> { pub fn new(b: &'a [u8]) -> (r: Cursor<'a>) ensures r.src() == (Src { bytes: b@, at: 0, faulty: false }) { Cursor { b: b, ghost_at: Ghost(0) } } }
impl<'a> VRead for Cursor<'a> { open spec fn src(&self) -> Src { Src { bytes: self.b@, at: self.ghost_at@, faulty: false } } }
#[verifier::external_body] pub struct File { x: u8 }
#[verifier::external_body] pub struct BufReader { x: u8 }
#[verifier::external_body] pub struct BufWriter { x: u8 }
/// what the file of this name holds when it is opened
pub uninterp spec fn held(p: Path) -> Src;
pub uninterp spec fn file_of(w: BufWriter) -> Path;
impl File {
    pub uninterp spec fn held(&self) -> Src;
    pub uninterp spec fn name(&self) -> Path;
    #[verifier::external_body] pub fn open<P: VAsRef>(p: P) -> (r: Result<File, IoError>) ensures r is Ok ==> r->Ok_0.held() == held(p.sp()) && r->Ok_0.held().at == 0 { unimplemented!() }
    #[verifier::external_body] pub fn create<P: VAsRef>(p: P) -> (r: Result<File, IoError>) ensures r is Ok ==> r->Ok_0.name() == p.sp() { unimplemented!() }
}
impl BufReader { #[verifier::external_body] pub fn new(f: File) -> (r: BufReader) ensures r.src() == f.held() { unimplemented!() } }
impl VRead for BufReader { uninterp spec fn src(&self) -> Src; }
impl BufWriter { #[verifier::external_body] pub fn new(f: File) -> (r: BufWriter) ensures file_of(r) == f.name() { unimplemented!() } }
''' % (by, STR_EQ, ", ".join("EncodingFormat::%s { .. } => Format::%s" % (f, f) for f in FORMATS))
    t = t.replace("uninterp spec fn src(&self) -> Src; }\nimpl BufWriter", "open spec fn src(&self) -> Src { self.vsrc() } }\nimpl BufReader { pub uninterp spec fn vsrc(&self) -> Src; }\nimpl BufWriter")
    t += "impl EncodingError { pub fn verr(e: IoError) -> (r: EncodingError) { EncodingError::IoError(e) } }\nimpl DecodingError { pub fn verr(e: IoError) -> (r: DecodingError) { DecodingError::IoError(e) } }\n"
    t += r'''
impl Format {
    /// its contract: decided by Kani (complete for the bytes it looks at)
    #[verifier::external_body]
    pub fn from_reader<T: VRead>(reader: &mut T) -> (r: Result<Format, DecodingError>)
        ensures final(reader).src().bytes == old(reader).src().bytes, final(reader).src().faulty == old(reader).src().faulty, r is Ok ==> sig(old(reader).src().bytes) == Some(r->Ok_0) && final(reader).src().at == 0,
            sig(old(reader).src().bytes) is None ==> r is Err, !old(reader).src().faulty ==> ((r is Ok) == (sig(old(reader).src().bytes) is Some)) && final(reader).src().at == 0 { unimplemented!() }
}
'''
    for f in FORMATS:
        n = f.lower()
        t += "#[verifier::external_body] pub fn decode_%s<T: VRead>(reader: T) -> (r: Result<DecodedImage, DecodingError>) ensures r == dec(Format::%s, reader.src()) { unimplemented!() }\n" % (n, f)
        t += "#[verifier::external_body] pub fn encode_%s<W>(w: W, buffer: &PixelBuffer<Rgb>%s) -> (r: Result<(), EncodingError>) ensures wrote(w, *buffer, Format::%s, r) { unimplemented!() }\n" % (n, "".join(", a%d: %s" % z for z in enumerate(PAR[f])), f)
    return t + texts()


EDIT = "/// a text made from a text by the standard library; which one is not looked at\npub uninterp spec fn edited(which: int, s: Seq<char>) -> Seq<char>;\n#[verifier::external_body] pub fn v_edit(which: Ghost<int>, s: &str) -> (r: String) ensures r@ == edited(which@, s@) { unimplemented!() }\n"
EDITS = ("trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim_matches", "trim_start_matches", "trim_end_matches", "replace", "replacen", "repeat")


def edits(b):
    """a changed text is some function of the text"""
    def by(e): return rast.strip(e).get("k") == "ref" and rast.strip(e)["e"].get("k") == "call" and rast.strip(e)["e"]["f"].get("p") == "v_edit"

    def g(n):
        if n.get("k") == "mcall" and n["m"] in EDITS and all(rast.strip(a).get("k") == "lit" for a in n["a"]):
            which = int(__import__("hashlib").sha1(repr([n["m"]] + [rast.strip(a)["t"] for a in n["a"]]).encode()).hexdigest()[:8], 16)
            return rast.ref(rast.call("v_edit", {"k": "rawe", "t": "Ghost(%dint)" % which}, n["e"] if rast.strip(n["e"])["k"] == "path" or by(n["e"]) else rast.ref(n["e"])))
        if n.get("k") == "mcall" and by(n["e"]) and not n["a"] and n["m"] in ("to_owned", "to_string", "into_owned", "v_to_string"): return rast.strip(n["e"])["e"]
        if n.get("k") == "mcall" and by(n["e"]) and not n["a"] and n["m"] in ("as_str", "as_ref"): return n["e"]
        if n.get("k") == "ref" and not n["mut"] and by(n["e"]): return n["e"]
        return n
    return rast.rewrite(b, g)


def strmatch(b):
    """a match over texts is the chain of comparisons it abbreviates, in its order"""
    cnt = [0]

    def lits(p):
        p = rast.strip(p)
        if p["k"] == "lit" and p["t"].startswith('"'): return [p]
        if p["k"] == "or":
            r = [lits(x) for x in p["e"]]
            return None if any(x is None for x in r) else [y for x in r for y in x]
        return None

    def g(n):
        if n.get("k") == "match" and any(lits(a["p"]) for a in n["arms"]):
            last = n["arms"][-1]
            if last["p"]["k"] != "wild" or last["g"] or any(not lits(a["p"]) for a in n["arms"][:-1]): raise Unsupported("match over texts")
            v = "_s%d" % cnt[0]; cnt[0] += 1
            blk = lambda e: {"k": "block", "st": [{"k": "expr", "e": e, "semi": False}]}
            e = {"k": "blocke", "b": blk(last["b"])}
            for a in reversed(n["arms"][:-1]):
                c = None
                for l in lits(a["p"]):
                    q = rast.call("str_eq", rast.path(v), l)
                    c = q if c is None else {"k": "bin", "op": "||", "l": c, "r": q}
                if a["g"]: c = {"k": "bin", "op": "&&", "l": {"k": "paren", "e": c}, "r": {"k": "paren", "e": a["g"]}}
                e = {"k": "if", "c": c, "t": blk(a["b"]), "e": e}
            return {"k": "blocke", "b": {"k": "block", "st": [rast.let(v, n["e"]), {"k": "expr", "e": e, "semi": False}]}}
        if n.get("k") == "bin" and n["op"] in ("==", "!=") and any(rast.strip(n[s]).get("k") == "lit" and rast.strip(n[s])["t"].startswith('"') for s in "lr"):
            q = rast.call("str_eq", n["l"], n["r"])
            return q if n["op"] == "==" else {"k": "un", "op": "!", "e": q}
        return n
    return rast.rewrite(b, g)


def ioerr(ty):
    """`?` on an operation of the file system converts its error through From<IoError>"""
    def go(b):
        def g(n):
            if n.get("k") == "match" and rast.strip(n["e"]).get("k") == "call" and rast.strip(n["e"])["f"].get("p", "").startswith("File::"):
                for a in n["arms"]:
                    for x in rast.walk(a["b"]):
                        if x.get("k") == "return" and x["e"] and x["e"].get("k") == "call" and x["e"]["f"].get("p") == "Err" and x["e"]["a"][0].get("p") == "_t": x["e"] = rast.call("Err", rast.call(ty + "::verr", rast.path("_t")))
            return n
        return rast.rewrite(b, g)
    return go


def writer(b):
    """the writer passed on by reference is the writer (it is not used again)"""
    def g(n):
        if n.get("k") == "call" and n["f"].get("p") == "encode": return dict(n, a=[x["e"] if x["k"] == "ref" and x["mut"] and x["e"]["k"] == "path" else x for x in n["a"]])
        return n
    return rast.rewrite(b, g)


def unit():
    D = "proof { names_differ(); }"
    u = Unit("c18_names", pre)
    u.add(Fn(LIB, "from_path", "Format", ens=["r == @p0.named()"], subst=(strmatch,), entry=D))
    u.add(Fn(LIB, "format", "EncodingFormat", ens=["r == fmt_of(*self)"]))
    for f in FORMATS: u.add(Fn(LIB, f.lower() + "_default", "EncodingFormat", ens=["fmt_of(r) == Format::" + f]))
    u.add(Fn(LIB, "jpeg_with_quality", "EncodingFormat", ens=["fmt_of(r) == Format::Jpeg"]), Fn(LIB, "webp_with_quality", "EncodingFormat", ens=["fmt_of(r) == Format::WebP"]), Fn(LIB, "webp_with_preset", "EncodingFormat", ens=["fmt_of(r) == Format::WebP"]))
    u.add(Fn(LIB, "from_path", "EncodingFormat", ens=["(r is Ok) == (@p0.named() is Some)", "r is Ok ==> Some(fmt_of(r->Ok_0)) == @p0.named()"]))
    u.add(Fn(LIB, "decode", generics=["T: VRead"], where=[], ens=["r == dec(@p1, @p0.src())"]))
    S0 = "Src { bytes: %s, at: 0, faulty: %s }"
    u.add(Fn(LIB, "decode_buffer", ens=["sig(@p0@) is None ==> r is Err", "sig(@p0@) is Some ==> r == dec(sig(@p0@)->Some_0, Src { bytes: @p0@, at: 0, faulty: false })"]))
    h = "held(@p0.sp())"
    u.add(Fn(LIB, "decode_file", generics=["P: VAsRef"], where=[], subst=(ioerr("DecodingError"),), ens=["r is Ok && !%s.faulty && sig(%s.bytes) is Some ==> r == dec(sig(%s.bytes)->Some_0, Src { bytes: %s.bytes, at: 0, faulty: false })" % (h, h, h, h),
             "r is Ok && !%s.faulty && sig(%s.bytes) is None ==> @p0.sp().named() is Some && r == dec(@p0.sp().named()->Some_0, Src { bytes: %s.bytes, at: 0, faulty: false })" % (h, h, h)]))
    u.add(Fn(LIB, "encode", generics=["W"], where=[], ens=["wrote(@p0, *@p1, fmt_of(@p2), r)"]))
    u.add(Fn(LIB, "encode_to_file", generics=["P: VAsRef"], where=[], subst=(ioerr("EncodingError"), writer), ens=["@p2 is None && @p0.sp().named() is None ==> r is Err",
             "r is Ok ==> exists|w: BufWriter| file_of(w) == @p0.sp() && #[trigger] wrote(w, *@p1, chosen(@p2, @p0.sp()), r)"]))
    yield u
