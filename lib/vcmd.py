"""Contracts of the command queue (C19)."""
import re
import rast
from rast import Unsupported
from weave import Fn, Loop, Unit
import vcore, vimg
from vcore import PB, prelude, SPEC_CALLS
from vops import none_subst

Q, CM, ER = "d10-commands/src/queue.rs", "d10-commands/src/commands.rs", "d10-commands/src/errors.rs"
RGBC = "d10-core/src/color/mod.rs"

# command -> (function, parameters of the variant, method of Rgb)
COL = [("ToGray", "to_gray", "to_gray_with_intensity", ["Intensity"]), ("Invert", "invert", "invert", []), ("Gamma", "gamma", "with_gamma", ["f32"]), ("Level", "level", "with_level", ["f32", "f32", "f32"]),
       ("Brightness", "brightness", "with_brightness", ["f32"]), ("Contrast", "contrast", "with_contrast", ["f32"]), ("BrightnessContrast", "brightness_contrast", "with_brightness_contrast", ["f32", "f32"]),
       ("Saturation", "saturation", "with_saturation", ["f32"]), ("StretchSaturation", "stretch_saturation", "stretch_saturation", ["f32"]), ("Lightness", "lightness", "with_lightness", ["f32"]), ("HueRotate", "hue_rotate", "with_hue_rotate", ["f32"])]
IMG = [("Rotate", "rotate"), ("RandomNoise", "random_noise"), ("SaltNPepperNoise", "salt_n_pepper_noise"), ("RgbNoise", "rgb_noise")]
NAMED = {"Level": ["black_point", "white_point", "gamma"], "BrightnessContrast": ["brightness", "contrast"], "Rotate": ["radians", "filter"]}


def con(v, args):
    """the command as an expression"""
    if v in NAMED: return "Cmd::%s { %s }" % (v, ", ".join("%s: %s" % z for z in zip(NAMED[v], args)))
    return "Cmd::%s%s" % (v, "(" + ", ".join(args) + ")" if args else "")


def typeitem(rel, name):
    for f in rast.load(rel):
        if f["k"] == "typeitem" and f["name"] == name:
            t = re.sub(r"//[^\n]*|#\s*\[[^\]]*\]", "", f["t"])
            kind = re.search(r"\b(struct|enum)\b", t).group(1)
            b = t[t.index("{"):]
            if kind == "struct": b = re.sub(r"(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:", r"pub \1:", b)
            return "pub %s %s %s\n" % (kind, name, b)
    raise Unsupported("type %s not found (anchor lost)" % name)


WORLD = r'''
// ---- opaque types: nothing is assumed of them
#[verifier::external_body] pub struct PathBuf { x: u8 }
/// Deref of PathBuf is the same path
pub type Path = PathBuf;
#[verifier::external_body] pub struct DecodingError { x: u8 }
#[verifier::external_body] pub struct EncodingError { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Intensity { x: u8 }
#[verifier::external_body] pub struct Log { x: u8 }
impl Log {
    #[verifier::external_body] pub fn new(n: usize) -> (r: Log) { unimplemented!() }
    #[verifier::external_body] pub fn disable(&mut self) { unimplemented!() }
    #[verifier::external_body] pub fn log_command_step(&mut self, c: &Cmd) { unimplemented!() }
}
pub trait VPath: Sized { spec fn pb(self) -> PathBuf; fn into(self) -> (r: PathBuf) ensures r == self.pb(); }
pub type CommandResult<T> = Result<T, CommandError>;
/// the effects outside the program, in order, with what they returned
pub enum Eff { Open(PathBuf, Result<Image, DecodingError>), Save(PathBuf, Image, Result<(), EncodingError>) }
#[verifier::external_body] pub struct World { x: u8 }
impl World { pub uninterp spec fn log(&self) -> Seq<Eff>; }
impl Image {
    /// trusted: opening a file returns an image or an error and changes nothing else
    #[verifier::external_body] pub fn open(path: &PathBuf, w: &mut World) -> (r: Result<Image, DecodingError>) ensures final(w).log() == old(w).log().push(Eff::Open(*path, r)) { unimplemented!() }
    /// trusted: saving writes this image to this path or returns an error
    #[verifier::external_body] pub fn save(&self, path: &PathBuf, w: &mut World) -> (r: Result<(), EncodingError>) ensures final(w).log() == old(w).log().push(Eff::Save(*path, *self, r)) { unimplemented!() }
}
pub trait VErr<T> { spec fn es(self) -> T; fn verr(self) -> (r: T) ensures r == self.es(); }
impl VErr<CommandError> for CommandError { open spec fn es(self) -> CommandError { self } fn verr(self) -> (r: CommandError) { self } }
impl VErr<CommandError> for DecodingError { open spec fn es(self) -> CommandError { CommandError::Decoding(self) } fn verr(self) -> (r: CommandError) { CommandError::from_decoding(self) } }
impl VErr<CommandError> for EncodingError { open spec fn es(self) -> CommandError { CommandError::Encoding(self) } fn verr(self) -> (r: CommandError) { CommandError::from_encoding(self) } }
pub open spec fn mapped(s: Option<Image>, t: Option<Image>, f: spec_fn(Rgb) -> Rgb) -> bool {
    s is Some && t is Some && t->Some_0.bg_color == s->Some_0.bg_color && t->Some_0.buffer.width == s->Some_0.buffer.width && t->Some_0.buffer.height == s->Some_0.buffer.height
    && t->Some_0.buffer.px() =~= Seq::new(s->Some_0.buffer.px().len(), |i: int| f(s->Some_0.buffer.px()[i]))
}
pub open spec fn bg_or_none(o: Option<Rgb>) -> Rgb { match o { Some(c) => c, None => rgb_none() } }
#[verifier::external_body]
pub fn rgb_none_x() -> (r: Rgb) ensures r == rgb_none() { unimplemented!() }
'''


def step_spec():
    t = "/// command c, executed on the image s, gives the image t; the effects grow from l0 to l1\npub open spec fn step(c: Cmd, s: Option<Image>, t: Option<Image>, l0: Seq<Eff>, l1: Seq<Eff>) -> bool { match c {\n"
    t += "    Cmd::Silent => t == s && l1 == l0,\n    Cmd::Open(p) => t is Some && l1 == l0.push(Eff::Open(p, Ok(t->Some_0))),\n    Cmd::Save(p) => s is Some && t == s && l1 == l0.push(Eff::Save(p, s->Some_0, Ok(()))),\n"
    for v, f, m, tys in COL:
        a = NAMED.get(v) or ["a%d" % i for i in range(len(tys))]
        pat = "Cmd::%s%s" % (v, " { %s }" % ", ".join(a) if v in NAMED else "(" + ", ".join(a) + ")" if a else "")
        t += "    %s => mapped(s, t, |c: Rgb| s_%s(%s)) && l1 == l0,\n" % (pat, m, ", ".join(["c"] + a))
    t += "    Cmd::Rotate { radians, filter } => s is Some && t is Some && rel_rotate(s->Some_0.buffer, radians, bg_or_none(s->Some_0.bg_color), filter, t->Some_0.buffer) && t->Some_0.bg_color == s->Some_0.bg_color && l1 == l0,\n"
    for v, f in IMG[1:]:
        t += "    Cmd::%s(a) => s is Some && t is Some && rel_%s(s->Some_0.buffer, a, t->Some_0.buffer) && t->Some_0.bg_color == s->Some_0.bg_color && l1 == l0,\n" % (v, f)
    t += "} }\n"
    t += r'''/// command c, executed on the image s, fails with e
pub open spec fn fails(c: Cmd, s: Option<Image>, e: CommandError, l0: Seq<Eff>, l1: Seq<Eff>) -> bool { match c {
    Cmd::Silent => false,
    Cmd::Open(p) => e is Decoding && l1 == l0.push(Eff::Open(p, Err(e->Decoding_0))),
    Cmd::Save(p) => (s is None && e is MissingImage && l1 == l0) || (s is Some && e is Encoding && l1 == l0.push(Eff::Save(p, s->Some_0, Err(e->Encoding_0)))),
    _ => s is None && e is MissingImage && l1 == l0,
} }
/// the first m commands were executed in order, each on the image the previous one left: states s, effect logs l
pub open spec fn chain(c: Seq<Cmd>, m: int, s: Seq<Option<Image>>, l: Seq<Seq<Eff>>) -> bool {
    0 <= m <= c.len() && s.len() == m + 1 && l.len() == m + 1 && forall|k: int| 0 <= k < m ==> step(#[trigger] c[k], s[k], s[k + 1], l[k], l[k + 1])
}
'''
    return t


def colours():
    t = "impl Rgb {\n"
    d = ""
    for m, tys in {m: tys for _, _, m, tys in COL}.items():
        a = ["a%d: %s" % z for z in enumerate(tys)]
        d += "pub uninterp spec fn s_%s(c: Rgb%s) -> Rgb;\n" % (m, "".join(", " + x for x in a))
        t += "    #[verifier::external_body] pub fn %s(&self%s) -> (r: Rgb) ensures r == s_%s(*self%s) { unimplemented!() }\n" % (m, "".join(", " + x for x in a), m, "".join(", a%d" % i for i in range(len(tys))))
    return d + t + "}\n"


def verr(b):
    """`?` and `.into()` convert the error through its From impl"""
    def g(n):
        if n.get("k") == "return" and n["e"] is not None and n["e"].get("k") == "call" and n["e"]["f"].get("p") == "Err" and n["e"]["a"][0].get("p") == "_t":
            return dict(n, e=rast.call("Err", rast.mcall(rast.path("_t"), "verr")))
        if n.get("k") == "mcall" and n["m"] == "into" and not n["a"]: return dict(n, m="verr")
        if n.get("k") == "call" and n["f"].get("k") == "path" and n["f"]["p"] in ("CommandError::from", "From::from") and len(n["a"]) == 1: return rast.mcall(n["a"][0], "verr")
        return n
    return rast.rewrite(b, g)


def world(names, run=False):
    """the ghost world is threaded through the calls that have effects outside the program"""
    def go(b):
        def g(n):
            if n.get("k") == "call" and n["f"].get("k") == "path" and (n["f"]["p"] in names or n["f"]["p"] == "Image::open"): return dict(n, a=n["a"] + [rast.path("w")])
            if n.get("k") == "mcall" and n["m"] == "save": return dict(n, a=n["a"] + [rast.path("w")])
            return n
        return rast.rewrite(b, g)
    return go


def exec_names():
    return {"execute"} | {"execute_" + n for n in ["open", "save"] + [f for _, f, _, _ in COL] + [f for _, f in IMG]}


def mod_pure(file, owner, name, self_="self"):
    """mod_colors with a callable without effects: every pixel becomes its image"""
    b = "self." if file == PB else "self.buffer."
    o, n = b.replace("self", "old(self)"), b.replace("self", "final(self)")
    ens = ["%sw() == %sw() && %sh() == %sh()" % (n, o, n, o), "%spx() =~= Seq::new(%spx().len(), |i: int| @p1.f(%spx()[i]))" % (n, o, o)]
    req = ["forall|c: Rgb| @p1.pre(c)"] if file != PB else ["forall|c: T| @p1.pre(c)"]
    if file == PB:
        return Fn(file, name, owner, pure="all", req=req, ens=ens, tags=["for"], entry="let ghost d0 = self.px(); let ghost w0 = self.w(); let ghost h0 = self.h();",
                  loops=[Loop(["_n0 == d0.len()", "0 <= _i0 <= _n0", "self.px().len() == d0.len()", "self.w() == w0 && self.h() == h0", "forall|j: int| 0 <= j < _i0 ==> self.px()[j] == @p1.f(d0[j])", "forall|j: int| _i0 <= j < d0.len() ==> self.px()[j] == d0[j]"])])
    return Fn(file, name, owner, pure="all", req=req, ens=ens + ["final(self).bg_color == old(self).bg_color"])


def exec_fns():
    S = "old(ctx).image, final(ctx).image, old(w).log(), final(w).log()"
    N = exec_names()
    W = ["w: &mut World"]

    def ens(c):
        return [("r is Ok ==> step(%s, %s)" % (c, S)).replace("ctx", "@p0"), ("r is Err ==> fails(%s, old(ctx).image, r->Err_0, old(w).log(), final(w).log()) && final(ctx).image == old(ctx).image" % c).replace("ctx", "@p0")]
    fs = [Fn(CM, "image", "Context", ens=["old(self).image is Some ==> r is Ok && *(r->Ok_0) == old(self).image->Some_0 && final(self).image == Some(*final(r->Ok_0))",
                                          "old(self).image is None ==> r is Err && r->Err_0 is MissingImage && final(self).image == old(self).image"])]
    sub = [world(N), verr]
    fs.append(Fn(CM, "execute_open", ens=ens("Cmd::Open(*@p1)"), subst=sub, extra=W))
    fs.append(Fn(CM, "execute_save", ens=ens("Cmd::Save(*@p1)"), subst=sub, extra=W))
    for v, f, m, tys in COL:
        a = ["@p%d" % (i + 1) for i in range(len(tys))]
        fs.append(Fn(CM, "execute_" + f, ens=ens(con(v, a)), subst=sub, extra=W, fpclos=[("r", ["Rgb", "Rgb"], "s_%s(%s)" % (m, ", ".join(["@c0"] + a)), "true")]))
    for v, f in IMG:
        fs.append(Fn(CM, "execute_" + f, ens=ens(con(v, ["@p1", "@p2"] if f == "rotate" else ["@p1"])), subst=sub, extra=W))
    OK = "r is Ok ==> exists|s: Seq<Option<Image>>, l: Seq<Seq<Eff>>| #[trigger] chain(@p1@, @p1@.len() as int, s, l) && s[0] == old(@p0).image && l[0] == old(w).log() && final(@p0).image == s[@p1@.len() as int] && final(w).log() == l[@p1@.len() as int]"
    ER_ = ("r is Err ==> exists|m: int, s: Seq<Option<Image>>, l: Seq<Seq<Eff>>| #[trigger] chain(@p1@, m, s, l) && m < @p1@.len() && s[0] == old(@p0).image && l[0] == old(w).log() && final(@p0).image == s[m] && fails(@p1@[m], s[m], r->Err_0, l[m], final(w).log())")
    fs.append(Fn(CM, "execute", ens=[OK, ER_], subst=sub, extra=W, tags=["for"], entry="let ghost mut g_s = seq![@p0.image]; let ghost mut g_l = seq![w.log()];",
                 loops=[Loop(["_n0 == @p1@.len()", "0 <= _i0 <= _n0", "chain(@p1@, _i0 as int, g_s, g_l)", "g_s[0] == old(@p0).image && g_l[0] == old(w).log()", "g_s[_i0 as int] == @p0.image && g_l[_i0 as int] == w.log()"],
                             tail="g_s = g_s.push(@p0.image); g_l = g_l.push(w.log()); assert(chain(@p1@, _i0 + 1, g_s, g_l));")]))
    return fs


def unit_exec():
    def pre():
        return (prelude("A") + SPEC_CALLS + vimg.enums() + typeitem(CM, "Cmd") + "use Cmd::*;\n" + typeitem(ER, "CommandError") + typeitem(CM, "Context") + vimg.image_struct() + "pub fn vnop() {}\n" + WORLD + step_spec() + colours() +
                typeitem(Q, "Queue") + "".join(vimg.decl(n) for n in ["rotate", "random_noise", "salt_n_pepper_noise", "rgb_noise"]))
    u = Unit("c19_exec", pre)
    u.add(*vcore.getters())
    u.add(mod_pure(PB, "PixelBuffer", "mod_colors"), [f for f in vimg.ctors() if f.name == "new_from_buffer_with_meta"][0], mod_pure(vimg.IM, "Image", "mod_colors"))
    u.add(*[vimg.img_fn(n) for n in ("random_noise", "salt_n_pepper_noise", "rgb_noise")])
    u.add(vimg.img_fn("rotate", args=["@p1", "bg_or_none(self.bg_color)", "@p2"]))
    u.add(Fn(ER, "from", "CommandError", impl="DecodingError", as_name="from_decoding", ens=["r == CommandError::Decoding(@p0)"]) if False else Fn(ER, "from", "CommandError", trait="From<DecodingError>", as_name="from_decoding", ens=["r == CommandError::Decoding(@p0)"]))
    u.add(Fn(ER, "from", "CommandError", trait="From<EncodingError>", as_name="from_encoding", ens=["r == CommandError::Encoding(@p0)"]))
    u.add(Fn(CM, "ignore_in_log", "Cmd"))
    u.add(*exec_fns())
    T = "(r is Ok ==> exists|s: Seq<Option<Image>>, l: Seq<Seq<Eff>>| #[trigger] chain(self.commands@, self.commands@.len() as int, s, l) && s[0] is None && l[0] == old(w).log() && final(w).log() == l[self.commands@.len() as int])"
    E = "(r is Err ==> exists|m: int, s: Seq<Option<Image>>, l: Seq<Seq<Eff>>| #[trigger] chain(self.commands@, m, s, l) && m < self.commands@.len() && s[0] is None && l[0] == old(w).log() && fails(self.commands@[m], s[m], r->Err_0, l[m], final(w).log()))"
    u.add(Fn(Q, "run", "Queue", ens=[T, E], extra=["w: &mut World"], subst=[world(exec_names()), verr], tags=["count"], loops=[Loop(["_n0 == self.commands@.len()", "0 <= _i0 <= _n0", "_c0 <= _i0"])]))
    yield u


def builders():
    P = "r.commands@ == self.commands@.push(%s)"
    fs = [Fn(Q, "new", "Queue", ens=["r.commands@.len() == 0"]), Fn(Q, "is_empty", "Queue", ens=["r == (self.commands@.len() == 0)"]), Fn(Q, "len", "Queue", ens=["r == self.commands@.len()"]),
          Fn(Q, "push", "Queue", ens=["final(self).commands@ == old(self).commands@.push(@p1)"]), Fn(Q, "with", "Queue", ens=[P % "@p1"]), Fn(Q, "silent", "Queue", ens=[P % "Cmd::Silent"]),
          Fn(Q, "open", "Queue", generics=["P: VPath"], ens=[P % "Cmd::Open(@p1.pb())"]), Fn(Q, "save", "Queue", generics=["P: VPath"], ens=[P % "Cmd::Save(@p1.pb())"]),
          Fn(Q, "default", "Queue", ens=["r.commands@.len() == 0"]), Fn(Q, "rotate", "Queue", ens=[P % con("Rotate", ["@p1", "@p2"])])]
    for v, f, m, tys in COL:
        fs.append(Fn(Q, f, "Queue", ens=[P % con(v, ["@p%d" % (i + 1) for i in range(len(tys))])]))
    return fs


def unit_builders():
    def pre():
        return prelude("A") + SPEC_CALLS + vimg.enums() + typeitem(CM, "Cmd") + WORLD[:WORLD.index("impl Log")] + WORLD[WORLD.index("pub trait VPath"):WORLD.index("pub type CommandResult")] + typeitem(Q, "Queue")
    yield Unit("c19_builders", pre).add(*builders())
