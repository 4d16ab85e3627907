"""Contracts of the noise operations (C20), over the reals and for every random source."""
from weave import Fn, Loop, Unit
import rast, vcol, vcore, vnan, vreal
from vcol import RGB, MOD
from vcore import PB

OPS = "d10-ops/src/"
SNP, RGBN, RND, GAU = (OPS + x + ".rs" for x in ("salt_n_pepper_noise", "rgb_noise", "random_noise", "gaussian_noise"))
NOI = r'''
/// random and gaussian noise are taken at the colour type an image has
pub type C = Rgb;
/// a random source: nothing is known about what it returns, except the range asked for (rand's documentation)
#[verifier::external_body]
pub struct ThreadRng { x: u8 }
pub trait Rng: Sized {
    fn v_between(&mut self, a: Fl, b: Fl) -> (r: Fl) requires a.r() <= b.r() ensures a.r() <= r.r() <= b.r();
    fn v_between_i(&mut self, a: i32, b: i32) -> (r: i32) requires a < b ensures a <= r < b;
    fn v_normal(&mut self) -> (r: Fl);
}
impl Rng for ThreadRng {
    #[verifier::external_body] fn v_between(&mut self, a: Fl, b: Fl) -> (r: Fl) { unimplemented!() }
    #[verifier::external_body] fn v_between_i(&mut self, a: i32, b: i32) -> (r: i32) { unimplemented!() }
    #[verifier::external_body] fn v_normal(&mut self) -> (r: Fl) { unimplemented!() }
}
#[verifier::external_body] pub fn v_thread_rng() -> (r: ThreadRng) { unimplemented!() }
pub open spec fn filled(d: [f32; 4], v: real) -> bool { ch(d, 0) == v && ch(d, 1) == v && ch(d, 2) == v && ch(d, 3) == 1real }
/// opaque black, opaque white or unchanged; unchanged for a threshold of 0 or less, changed for one above 1
pub open spec fn salted(c: Rgb, t: real, r: Rgb) -> bool {
    (r == c || filled(r.data, 0real) || filled(r.data, 1real)) && (t <= 0real ==> r == c) && (t > 1real ==> filled(r.data, 0real) || filled(r.data, 1real))
}
/// unchanged or exactly one colour channel full
pub open spec fn sparked(c: Rgb, t: real, r: Rgb) -> bool {
    let one = full(c.data, 0, r.data) || full(c.data, 1, r.data) || full(c.data, 2, r.data);
    (r == c || one) && (t <= 0real ==> r == c) && (t > 1real ==> one)
}
pub open spec fn full(c: [f32; 4], k: int, r: [f32; 4]) -> bool { ch(r, k) == 1real && forall|j: int| 0 <= j < 4 && j != k ==> (#[trigger] r@[j]) == c@[j] }
/// in range, alpha kept, unchanged at strength 0
pub open spec fn noisy(c: Rgb, s: real, r: Rgb) -> bool {
    rgb01(r.data) && ch(r.data, 3) == c01(ch(c.data, 3)) && (s == 0real ==> forall|k: int| 0 <= k < 3 ==> (#[trigger] ch(r.data, k)) == c01(ch(c.data, k)))
}
'''


def rng(b):
    """the calls of rand, by the kind of range they ask for"""
    def g(n):
        if n.get("k") == "mcall" and n["m"] == "gen_range" and len(n["a"]) == 1:
            r = rast.strip(n["a"][0])
            if r["k"] != "range" or r["l"] is None or r["r"] is None: raise rast.Unsupported("gen_range")
            isf = vreal.isfloat(r["l"], ())
            if isf != bool(r["incl"]): raise rast.Unsupported("gen_range")
            return rast.mcall(n["e"], "v_between" if isf else "v_between_i", r["l"], r["r"])
        if n.get("k") == "mcall" and n["m"] == "sample" and len(n["a"]) == 1 and rast.strip(n["a"][0]).get("p", "").split("::")[-1] == "StandardNormal": return rast.mcall(n["e"], "v_normal")
        if n.get("k") == "call" and n["f"].get("p", "").split("::")[-1] == "thread_rng": return rast.call("v_thread_rng")
        return n
    return rast.rewrite(b, g)


def consts(b):
    return rast.rewrite(b, lambda n: rast.call(n["p"]) if n.get("k") == "path" and n["p"] in ("Rgb::BLACK", "Rgb::WHITE") else n)


MAP = vnan.MAPC + ((".map_color_channels", ((MOD, "map_color_channels", "Color"), 0)), (".try_map_color_channels", ((RGB, "try_map_color_channels", "Rgb"), 0)))


def pair(file, cp, ip, rel, **kw):
    """copying and in-place form: the same relation between every pixel before and after"""
    at = lambda a, b, k: "%s(%s[%s], @p1.r(), %s[%s])" % (rel, a, k, b, k)
    ent = "let ghost g_b = *@p0; proof { dims_bound(@p0.w(), @p0.h()); }"
    n = ["_n0 == g_b.px().len()", "0 <= _i0 <= _n0"]
    O, F = "old(@p0)", "final(@p0)"
    c = Fn(file, cp, req=["@p0.wf()"], ens=["r.wf() && r.w() == @p0.w() && r.h() == @p0.h()", "forall|k: int| 0 <= k < @p0.px().len() ==> #[trigger] " + at("@p0.px()", "r.px()", "k")], inline=MAP, entry=ent, tags=["collect"], subst=(rng,),
           loops=[Loop(n + ["_v0@.len() == _i0", "forall|k: int| 0 <= k < _i0 ==> #[trigger] " + at("g_b.px()", "_v0@", "k")], ty="Rgb")], **kw)
    i = Fn(file, ip, req=[O + ".wf()"], ens=["%s.wf() && %s.w() == %s.w() && %s.h() == %s.h()" % (F, F, O, F, O), "forall|k: int| 0 <= k < %s.px().len() ==> #[trigger] " % O + at(O + ".px()", F + ".px()", "k")], inline=MAP, entry=ent, tags=["for"], subst=(rng,),
           loops=[Loop(n + ["@p0.w() == g_b.w() && @p0.h() == g_b.h() && @p0.px().len() == g_b.px().len()", "forall|k: int| 0 <= k < _i0 ==> #[trigger] " + at("g_b.px()", "@p0.px()", "k"), "forall|k: int| _i0 <= k < _n0 ==> @p0.px()[k] == g_b.px()[k]"])], **kw)
    return [c, i]


def unit():
    one = [Fn(SNP, "salt_n_pepper", ens=["salted(*@p0, @p1.r(), r)"], subst=(rng, consts)),
           Fn(RGBN, "rgb_noise_for_pixel", ens=["sparked(*@p0, @p1.r(), r)"], subst=(rng,), exit="")]
    w = [Fn(RGB, "with_" + n, "Rgb", ens=["r.data@ =~= self.data@.update(%d, @p1)" % i]) for i, n in enumerate(("red", "green", "blue"))]
    new = [f for f in vcol.srgb_fns() if f.owner == "Rgb" and f.name == "new_with_alpha"]
    yield Unit("c20", vnan.pre(NOI, lambda: vnan.rgb_const("BLACK"), lambda: vnan.rgb_const("WHITE")), real=True).add(*vcore.getters(), *vcol.gamma_fns()[:1], *new, *w, *one,
        *pair(SNP, "salt_n_pepper_noise", "add_salt_n_pepper_noise", "salted"), *pair(RGBN, "rgb_noise", "add_rgb_noise", "sparked"),
        *[f for file, n in ((RND, "random_noise"), (GAU, "gaussian_noise")) for f in pair(file, n, "add_" + n, "noisy", signed=True, generics=(), where=())])
