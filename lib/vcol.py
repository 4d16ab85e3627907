"""Colour space conversions over the reals (C12, C13, C15)."""
import re
from fractions import Fraction as Q
import rast, vreal, weave
from rast import Unsupported
from weave import Fn, Unit

D = "d10-core/src/color/"
MOD, RGB, SRGB, YUV, XYZ, LAB, HSL, HSV = [D + x + ".rs" for x in ("mod", "rgb", "srgb", "yuv", "xyz", "lab", "hsl", "hsv")]


# ------------------------------------------------------------------ constants of the source
def val(e):
    """exact value of a constant expression"""
    e = rast.strip(e)
    if e["k"] == "lit":
        t = re.sub(r"_?f(32|64)$", "", e["t"]).replace("_", "")
        return Q(t)
    if e["k"] == "un" and e["op"] == "-": return -val(e["e"])
    if e["k"] == "bin" and e["op"] in "+-*/":
        a, b = val(e["l"]), val(e["r"])
        return a + b if e["op"] == "+" else a - b if e["op"] == "-" else a * b if e["op"] == "*" else a / b
    if e["k"] in ("array",): return [val(x) for x in e["e"]]
    raise Unsupported("constant expression")


def rq(v):
    if v < 0: return "(0real - %s)" % rq(-v)
    return "%dreal" % v.numerator if v.denominator == 1 else "(%dreal / %dreal)" % (v.numerator, v.denominator)


def const_fn(file, name, as_name=None):
    """a constant as a function returning its value, its contract giving the value of every entry"""
    c = rast.const(file, name)
    return const_text(as_name or name, c["ty"], c["e"])


def const_text(name, ty, e):
    v = val(e)
    ens = []

    def go(v, p):
        if isinstance(v, list):
            for i, x in enumerate(v): go(x, p + "@[%d]" % i)
        else: ens.append("%s.r() == %s" % (p, rq(v)))
    go(v, "r")
    return "pub fn %s() -> (r: %s)\n    ensures\n%s{ %s }\n" % (name, vreal.ty_sub(ty), "".join("        %s,\n" % x for x in ens), rast.ue(vreal.reals(e)))


# ------------------------------------------------------------------ powers
POW = r'''
/// natural powers
pub open spec fn npow(x: real, n: nat) -> real decreases n { if n == 0 { 1real } else { x * npow(x, (n - 1) as nat) } }
pub mod powlaws { use super::*;
/// the laws of real powers (trusted)
pub axiom fn pow_pos(x: real, a: real) requires x >= 0real, a > 0real ensures rpow(x, a) >= 0real;
pub axiom fn pow_pow(x: real, a: real, b: real) requires x >= 0real, a > 0real, b > 0real ensures rpow(rpow(x, a), b) == rpow(x, a * b);
pub axiom fn pow_nat(x: real, n: nat) requires n > 0 ensures rpow(x, n as real) == npow(x, n);
pub axiom fn pow_mul(x: real, y: real, a: real) requires x >= 0real, y >= 0real, a > 0real ensures rpow(x * y, a) == rpow(x, a) * rpow(y, a);
pub axiom fn pow_mono(x: real, y: real, a: real) requires 0real <= x < y, a > 0real ensures rpow(x, a) < rpow(y, a);
}
pub use powlaws::*;
pub proof fn pow_le(x: real, y: real, a: real) requires 0real <= x <= y, a > 0real ensures 0real <= rpow(x, a) <= rpow(y, a) { pow_pos(x, a); if x < y { pow_mono(x, y, a); } }
/// if x^a < y^a then x < y
pub proof fn pow_inv(x: real, y: real, a: real) requires 0real <= x, 0real <= y, a > 0real, rpow(x, a) < rpow(y, a) ensures x < y { if x > y { pow_mono(y, x, a); } }
'''

GAM0 = r'''
pub open spec fn near(a: real, b: real, e: real) -> bool { a - b <= e && b - a <= e }
pub open spec fn unit(a: real) -> bool { 0real <= a <= 1real }
'''
LG = r'''
pub open spec fn lin(v: real) -> real { if v > (4045real / 100000real) { rpow((v + 55real / 1000real) / (1055real / 1000real), 12real / 5real) } else { v / (1292real / 100real) } }
pub open spec fn gam(v: real) -> real { if v > (3130805real / 1000000000real) { 1055real / 1000real * rpow(v, 5real / 12real) - 55real / 1000real } else { 1292real / 100real * v } }
'''
GAM = GAM0 + LG + r'''
/// t = x^(5/12) against a bound c
pub proof fn root_below(x: real, c: real) requires x >= 0real, c >= 0real, npow(x, 5) < npow(c, 12) ensures rpow(x, 5real / 12real) < c {
    let t = rpow(x, 5real / 12real);
    pow_pos(x, 5real / 12real); pow_pow(x, 5real / 12real, 12real); pow_nat(x, 5); pow_nat(t, 12); pow_nat(c, 12);
    assert((5real / 12real) * 12real == 5real);
    assert(12nat as real == 12real && 5nat as real == 5real);
    pow_inv(t, c, 12real);
}
pub proof fn root_above(x: real, c: real) requires x >= 0real, c >= 0real, npow(x, 5) > npow(c, 12) ensures rpow(x, 5real / 12real) > c {
    let t = rpow(x, 5real / 12real);
    pow_pos(x, 5real / 12real); pow_pow(x, 5real / 12real, 12real); pow_nat(x, 5); pow_nat(t, 12); pow_nat(c, 12);
    assert((5real / 12real) * 12real == 5real);
    assert(12nat as real == 12real && 5nat as real == 5real);
    pow_inv(c, t, 12real);
}
pub proof fn n5(x: real) ensures npow(x, 5) == x * (x * (x * (x * x))) { reveal_with_fuel(npow, 7); }
pub proof fn n12(x: real) ensures npow(x, 12) == x * (x * (x * (x * (x * (x * (x * (x * (x * (x * (x * x)))))))))) { reveal_with_fuel(npow, 14); }
pub proof fn pow512(x: real) requires x >= 0real ensures rpow(x, 5real / 12real) >= 0real, rpow(rpow(x, 5real / 12real), 12real / 5real) == x {
    pow_pos(x, 5real / 12real); pow_pow(x, 5real / 12real, 12real / 5real); pow_nat(x, 1); reveal_with_fuel(npow, 3);
    assert((5real / 12real) * (12real / 5real) == 1real); assert(1nat as real == 1real);
}
pub proof fn pow125(x: real) requires x >= 0real ensures rpow(x, 12real / 5real) >= 0real, rpow(rpow(x, 12real / 5real), 5real / 12real) == x {
    pow_pos(x, 12real / 5real); pow_pow(x, 12real / 5real, 5real / 12real); pow_nat(x, 1); reveal_with_fuel(npow, 3);
    assert((12real / 5real) * (5real / 12real) == 1real); assert(1nat as real == 1real);
}
/// s = u^(12/5) against a bound: s < d when u <= c and c^12 < d^5
pub proof fn pow_below(u: real, c: real, d: real) requires 0real <= u <= c, d >= 0real, npow(c, 12) < npow(d, 5) ensures rpow(u, 12real / 5real) < d {
    pow125(c); pow_le(u, c, 12real / 5real);
    let s = rpow(c, 12real / 5real);
    root_above(d, c);
    // d^(5/12) > c = s^(5/12)
    pow_inv(s, d, 5real / 12real);
}
pub proof fn pow_above(u: real, c: real, d: real) requires 0real <= c <= u, d >= 0real, npow(c, 12) > npow(d, 5) ensures rpow(u, 12real / 5real) > d {
    pow125(c); pow_le(c, u, 12real / 5real);
    let s = rpow(c, 12real / 5real);
    root_below(d, c);
    pow_inv(d, s, 5real / 12real);
}
pub open spec fn th() -> real { 3130805real / 1000000000real }
pub open spec fn gam_pow(v: real) -> real { 1055real / 1000real * rpow(v, 5real / 12real) - 55real / 1000real }
pub open spec fn jn() -> real { 4045real / 100000real }
pub proof fn junction() ensures
    gam_pow(th()) > 40449900real / 1000000000real, gam_pow(th()) < 40450100real / 1000000000real,
    rpow(th(), 5real / 12real) < 904739336real / 10000000000real,
    forall|x: real| 31309real / 10000000real <= x ==> (#[trigger] rpow(x, 5real / 12real)) > 9047394real / 100000000real,
    forall|u: real| 9047393real / 100000000real <= u <= 9047394real / 100000000real ==> 31308real / 10000000real < (#[trigger] rpow(u, 12real / 5real)) < 31309real / 10000000real,
    forall|u: real| (jn() + 55real / 1000real) / (1055real / 1000real) <= u ==> (#[trigger] rpow(u, 12real / 5real)) > th(),
{
    let lo = 90473890real / 1000000000real;
    let hi = 904739336real / 10000000000real;
    n5(th()); n12(lo); n12(hi);
    root_above(th(), lo); root_below(th(), hi);
    let a = 31309real / 10000000real;
    let c = 9047394real / 100000000real;
    n5(a); n12(c);
    root_above(a, c);
    assert forall|x: real| a <= x implies (#[trigger] rpow(x, 5real / 12real)) > c by { pow_le(a, x, 5real / 12real); }
    let b = 9047393real / 100000000real;
    let d = 31308real / 10000000real;
    n12(b); n5(d);
    assert forall|u: real| b <= u <= c implies d < (#[trigger] rpow(u, 12real / 5real)) < a by { pow_above(u, b, d); pow_below(u, c, a); }
    let e = 904739336real / 10000000000real;
    assert((jn() + 55real / 1000real) / (1055real / 1000real) >= e);
    assert forall|u: real| (jn() + 55real / 1000real) / (1055real / 1000real) <= u implies (#[trigger] rpow(u, 12real / 5real)) > th() by { pow_above(u, e, th()); }
}
pub proof fn pow_one() ensures rpow(1real, 5real / 12real) == 1real, rpow(1real, 12real / 5real) == 1real {
    n5(1real); n12(1real);
    let t = rpow(1real, 5real / 12real);
    pow_pos(1real, 5real / 12real); pow_pow(1real, 5real / 12real, 12real); pow_nat(1real, 5); pow_nat(t, 12); pow_nat(1real, 12);
    assert((5real / 12real) * 12real == 5real);
    assert(12nat as real == 12real && 5nat as real == 5real);
    if t < 1real { pow_mono(t, 1real, 12real); } else if t > 1real { pow_mono(1real, t, 12real); }
    pow512(1real);
}
/// the transfer functions stay in range and fix the ends
pub proof fn transfer_range(v: real) requires unit(v) ensures unit(lin(v)), unit(gam(v)), lin(0real) == 0real, lin(1real) == 1real, gam(0real) == 0real, gam(1real) == 1real {
    pow_one(); junction();
    if v > jn() { pow_le((v + 55real / 1000real) / (1055real / 1000real), 1real, 12real / 5real); }
    if v > th() { pow_le(v, 1real, 5real / 12real); pow_le(th(), v, 5real / 12real); }
}
/// they never decrease (gamma: by more than the mismatch of the standard's constants at the junction)
pub proof fn transfer_monotone(a: real, b: real) requires unit(a), unit(b), a <= b ensures lin(a) <= lin(b), gam(a) <= gam(b) + 1real / 5000000real {
    junction();
    let (ua, ub) = ((a + 55real / 1000real) / (1055real / 1000real), (b + 55real / 1000real) / (1055real / 1000real));
    if a > jn() { pow_le(ua, ub, 12real / 5real); }
    else if b > jn() { assert(lin(a) <= th()); assert(lin(b) > th()); }
    if a > th() { pow_le(a, b, 5real / 12real); }
    else if b > th() { pow_le(th(), b, 5real / 12real); assert(gam(a) <= 1292real / 100real * th()); assert(gam(b) >= gam_pow(th())); }
}
pub proof fn gam_lin(v: real) requires unit(v) ensures gam(lin(v)) == v {
    junction();
    let u = (v + 55real / 1000real) / (1055real / 1000real);
    if v > jn() { pow125(u); } else { assert(v / (1292real / 100real) <= th()); }
}
pub proof fn lin_gam(x: real) requires unit(x) ensures near(lin(gam(x)), x, 1real / 5000000real) {
    junction(); pow512(x);
    let y = gam(x);
    if x > th() {
        pow_le(th(), x, 5real / 12real);
        if y > jn() { assert((y + 55real / 1000real) / (1055real / 1000real) == rpow(x, 5real / 12real)); }
        else { assert(rpow(x, 5real / 12real) <= 9047394real / 100000000real); assert(x < 31309real / 10000000real); }
    } else if y > jn() {
        assert(y <= 1292real / 100real * th());
        let u = (y + 55real / 1000real) / (1055real / 1000real);
        assert(9047393real / 100000000real <= u <= 9047394real / 100000000real);
    }
}
'''


def gamma_fns():
    return [
        Fn(MOD, "clamp", ens=["r.r() == rclamp(@p0.r(), 0real, 1real)"]),
        Fn(SRGB, "gamma_to_linear", ens=["r.r() == lin(@p0.r())"], floaty=("value",)),
        Fn(SRGB, "linear_to_gamma", ens=["r.r() == gam(@p0.r())"], floaty=("value",)),
    ]


TYPES = "".join("#[derive(Clone, Copy)]\npub struct %s { pub data: [f32; 4] }\n" % t for t in ("Rgb", "Srgb", "Hsl", "Hsv", "Yuv", "Xyz")) + r'''
/// channels k of a colour
pub open spec fn ch(d: [f32; 4], k: int) -> real { d@[k].r() }
pub open spec fn c01(x: real) -> real { rclamp(x, 0real, 1real) }
pub open spec fn rgb01(d: [f32; 4]) -> bool { unit(ch(d, 0)) && unit(ch(d, 1)) && unit(ch(d, 2)) }
pub open spec fn near3(a: [f32; 4], b: [f32; 4], e: real) -> bool { near(ch(a, 0), ch(b, 0), e) && near(ch(a, 1), ch(b, 1), e) && near(ch(a, 2), ch(b, 2), e) }
'''


def srgb_fns():
    clamped = ["ch(r.data, 0) == c01(@p0.r()) && ch(r.data, 1) == c01(@p1.r()) && ch(r.data, 2) == c01(@p2.r())", "ch(r.data, 3) == c01(@p3.r())"]
    return [
        Fn(RGB, "new_with_alpha", "Rgb", ens=clamped),
        Fn(SRGB, "new_with_alpha", "Srgb", ens=clamped),
        Fn(RGB, "to_rgb", "Rgb", trait="Color", ens=["r == *self"]),
        Fn(MOD, "to_srgb", "Color", selfty=("", "Rgb"), ens=["forall|k: int| #![trigger ch(self.data, k)] #![trigger ch(r.data, k)] 0 <= k < 3 ==> ch(r.data, k) == c01(gam(ch(self.data, k)))", "ch(r.data, 3) == c01(ch(self.data, 3))"]),
        Fn(SRGB, "to_rgb", "Srgb", trait="Color", ens=["forall|k: int| #![trigger ch(self.data, k)] #![trigger ch(r.data, k)] 0 <= k < 3 ==> ch(r.data, k) == c01(lin(ch(self.data, k)))", "ch(r.data, 3) == c01(ch(self.data, 3))"]),
    ]


THEOREMS15 = """
fn srgb_and_back(c: &Rgb) -> Rgb { c.to_srgb().to_rgb() }
fn rgb_and_back(c: &Srgb) -> Srgb { c.to_rgb().to_srgb() }
"""


def th15():
    h = "proof { " + "".join("transfer_range(ch(@p0.data, %d)); lin_gam(ch(@p0.data, %d)); gam_lin(ch(@p0.data, %d)); " % (k, k, k) for k in range(3)) + "}"
    return [Fn(None, "srgb_and_back", src=THEOREMS15, req=["rgb01(@p0.data)"], ens=["near3(r.data, @p0.data, 1real / 5000000real)", "ch(r.data, 3) == c01(ch(@p0.data, 3))"], entry=h),
            Fn(None, "rgb_and_back", src=THEOREMS15, req=["rgb01(@p0.data)"], ens=["near3(r.data, @p0.data, 0real)", "ch(r.data, 3) == c01(ch(@p0.data, 3))"], entry=h)]


def unit15():
    yield Unit("c15", lambda: POW + GAM + TYPES, real=True).add(*gamma_fns()).add(*srgb_fns()).add(*th15())


# ------------------------------------------------------------------ C13
def matrix(file, name):
    v = val(rast.const(file, name)["e"])
    if [len(r) for r in v] != [3, 3, 3]: raise Unsupported("shape of " + name)
    from math import lcm
    def row(r):
        d = lcm(*[x.denominator for x in r])
        t = ""
        for k, x in enumerate(r):
            n = int(x * d)
            t += (" + " if n >= 0 else " - ") + "%dreal * %s" % (abs(n), "abc"[k])
        return "(0real%s) / %dreal" % (t, d)
    lem = "pub proof fn rows_%s()\n    ensures\n" % name + "".join("        forall|a: real, b: real, c: real| #[trigger] dot3(a, b, c, %s) == s_%s(a, b, c, %d),\n" % (", ".join(map(rq, r)), name, i) for i, r in enumerate(v)) + "{\n" + "".join(
        "    assert forall|a: real, b: real, c: real| #[trigger] dot3(a, b, c, {m}) == s_{n}(a, b, c, {i}) by {{ assert(a * {m0} + b * {m1} + c * {m2} == {row}) by (nonlinear_arith); }}\n".format(m=", ".join(map(rq, r)), n=name, i=i, m0=rq(r[0]), m1=rq(r[1]), m2=rq(r[2]), row=row(r)) for i, r in enumerate(v)) + "}\n"
    return const_fn(file, name) + lem + "pub open spec fn s_%s(a: real, b: real, c: real, i: int) -> real {\n    %s\n}\n" % (name, " else ".join(
        ("if i == %d " % i if i < 2 else "") + "{ " + row(r) + " }" for i, r in enumerate(v)))


def illuminants():
    """expansion of the illuminant! macro of lab.rs -> [(name, source)]"""
    items = [f["t"] for f in rast.load(LAB) if f["k"] == "macroitem"]
    defs = [t for t in items if re.search(r"macro_rules!\s*illuminant\b", t)]
    if len(defs) != 1: raise Unsupported("illuminant! not found")
    m = re.search(r"\(\s*\$(\w+):ident\s*,\s*\$(\w+):expr\s*\)\s*=>\s*\{(.*)\}\s*;?\s*\}\s*$", defs[0], re.S)
    if not m: raise Unsupported("shape of illuminant!")
    n, r, body = m.groups()
    out = []
    for t in items:
        u = re.match(r"\s*illuminant!\s*[\(\{]\s*(\w+)\s*,(.*)[\)\}]\s*;?\s*$", t, re.S)
        if u: out.append((u.group(1), body.replace("$" + n, u.group(1)).replace("$" + r, u.group(2).strip().rstrip(","))))
    if not out: raise Unsupported("no illuminants")
    return out


def ref_fn(name, src):
    """get_refs of one illuminant"""
    def leak(b):
        return rast.rewrite(b, lambda n: rast.call("leak", n["e"]) if n.get("k") == "ref" and n["e"]["k"] == "array" else n)
    v = ref_val(name, src)
    return Fn(None, "get_refs", src=src, selfty=("", name), as_name="refs_" + name, subst=(leak,),
              ens=["r@[%d]@[%d].r() == %s" % (o, k, rq(v[o][k])) for o in range(2) for k in range(3)])


def ref_val(name, src):
    f = weave.parse_src(src, "get_refs")
    b = f["body"]["st"]
    if len(b) != 1 or b[0]["k"] != "expr" or b[0]["e"]["k"] != "ref": raise Unsupported("shape of get_refs of " + name)
    v = val(b[0]["e"]["e"])
    if not (isinstance(v, list) and len(v) == 2 and all(isinstance(x, list) and len(x) == 3 for x in v)): raise Unsupported("shape of get_refs of " + name)
    return v


def struct_src(file, name):
    for f in rast.load(file):
        if f["k"] == "typeitem" and f["name"] == name:
            t = re.sub(r"//[^\n]*", "", f["t"])
            body = re.sub(r"(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:", r"pub \1:", t[t.index("{"):])
            head = re.sub(r"=\s*\w+", "", t[t.index("struct"):t.index("{")])
            gen = [g.split(":")[0].strip() for g in re.findall(r"<(.*)>", head)[0].split(",")] if "<" in head else []
            return "#[derive(Clone, Copy)]\n" + "".join("#[verifier::reject_recursive_types(%s)]\n" % g for g in gen) + "pub " + head + body + "\n"
    raise Unsupported("struct %s not found" % name)


W3 = "I::wref(O::col(), {0})"
LABS = r'''
pub use core::marker::PhantomData;
pub trait Illuminant: Copy {
    spec fn wref(o: int, k: int) -> real;
    proof fn wref_ok() ensures forall|o: int, k: int| 0 <= o < 2 && 0 <= k < 3 ==> 4real / 5real <= (#[trigger] Self::wref(o, k)) <= 11real / 10real;
    fn get_refs() -> (r: &'static [[f32; 3]; 2]) ensures forall|o: int, k: int| 0 <= o < 2 && 0 <= k < 3 ==> (#[trigger] r@[o]@[k]).r() == Self::wref(o, k);
}
pub trait Observer: Copy {
    spec fn col() -> int;
    proof fn col_ok() ensures 0 <= Self::col() < 2;
    fn get_refs(refs: &'static [[f32; 3]; 2]) -> (r: &'static [f32; 3]) ensures *r == refs@[Self::col()];
}
pub open spec fn dot3(a: real, b: real, c: real, p: real, q: real, r: real) -> real { a * p + b * q + c * r }
/// promotion of a constant table to 'static
#[verifier::external_body]
pub fn leak<T>(t: T) -> (r: &'static T) ensures *r == t { unimplemented!() }
pub open spec fn cbr(v: real) -> real { rpow(v, 1real / 3real) }
pub open spec fn labf(v: real) -> real { if v < 8856real / 1000000real { (9033real / 10real * v + 16real) / 116real } else { cbr(v) } }
pub open spec fn labg(t: real) -> real { if t > 20689303real / 100000000real { rpow(t, 3real) } else { (t - 16real / 116real) / (7787real / 1000real) } }
pub proof fn cube(x: real) ensures rpow(x, 3real) == x * x * x { pow_nat(x, 3); assert(3nat as real == 3real); reveal_with_fuel(npow, 5); assert(x * (x * (x * 1real)) == x * x * x) by (nonlinear_arith); }
pub proof fn cbr_ok(v: real) requires v >= 0real ensures cbr(v) >= 0real, rpow(cbr(v), 3real) == v, cbr(v) * cbr(v) * cbr(v) == v {
    pow_pos(v, 1real / 3real); pow_pow(v, 1real / 3real, 3real); assert((1real / 3real) * 3real == 1real); pow_nat(v, 1); assert(1nat as real == 1real); reveal_with_fuel(npow, 3); cube(cbr(v));
}
pub proof fn cube_between(t: real, a: real, b: real) requires 0real <= a <= t <= b ensures a * a * a <= t * t * t <= b * b * b {
    assert(0real <= a * a && a * a <= t * t && t * t <= b * b) by (nonlinear_arith) requires 0real <= a <= t <= b;
    assert(a * a * a <= t * t * t) by (nonlinear_arith) requires 0real <= a <= t, 0real <= a * a <= t * t;
    assert(t * t * t <= b * b * b) by (nonlinear_arith) requires 0real <= t <= b, 0real <= t * t <= b * b;
}
/// the two cube-root-with-linear-toe functions are inverse
pub proof fn gf(v: real) requires v >= 0real ensures near(labg(labf(v)), v, 1real / 5000000real), labg(labf(v)) >= 0real {
    let c = 20689303real / 100000000real;
    let t = labf(v);
    if v < 8856real / 1000000real {
        if t > c {
            cube(t);
            let b = 20689332real / 100000000real;
            cube_between(t, c, b);
            assert(b * b * b < 885604real / 100000000real && c * c * c > 885599real / 100000000real);
            assert(v > 8855959real / 1000000000real);
        }
    } else {
        cbr_ok(v);
        if t <= c { cube_between(t, 0real, c); assert(c * c * c < 8856real / 1000000real); }
    }
}
/// l, a, b of the XYZ values x, y, z
pub open spec fn slab<I: Illuminant, O: Observer>(x: real, y: real, z: real, k: int) -> real {
    let (fx, fy, fz) = (labf(x / I::wref(O::col(), 0)), labf(y / I::wref(O::col(), 1)), labf(z / I::wref(O::col(), 2)));
    if k == 0 { (116real * fy - 16real) / 100real } else if k == 1 { 500real * (fx - fy) / 128real } else { 200real * (fy - fz) / 128real }
}
pub open spec fn labx<I: Illuminant, O: Observer>(l: real, a: real, b: real, k: int) -> real {
    let ry = (l * 100real + 16real) / 116real;
    if k == 0 { labg(a * 128real / 500real + ry) * I::wref(O::col(), 0) } else if k == 1 { labg(ry) * I::wref(O::col(), 1) } else { labg(ry - b * 128real / 200real) * I::wref(O::col(), 2) }
}
/// XYZ values of an RGB colour, sRGB channels of an RGB colour
pub open spec fn xyz3(d: [f32; 4], k: int) -> real { s_RGB_TO_XYZ(ch(d, 0), ch(d, 1), ch(d, 2), k) }
pub open spec fn srgb3(d: [f32; 4], k: int) -> real { c01(gam(ch(d, k))) }
pub open spec fn lab3<I: Illuminant, O: Observer>(d: [f32; 4], k: int) -> real { slab::<I, O>(xyz3(d, 0), xyz3(d, 1), xyz3(d, 2), k) }
pub open spec fn lab_xyz<I: Illuminant, O: Observer>(d: [f32; 4], k: int) -> real { labx::<I, O>(ch(d, 0), ch(d, 1), ch(d, 2), k) }
pub open spec fn lch_xyz<I: Illuminant, O: Observer>(d: [f32; 4], k: int) -> real { labx::<I, O>(ch(d, 0), ch(d, 1) * rcos(ch(d, 2)), ch(d, 1) * rsin(ch(d, 2)), k) }
pub open spec fn lch_lab<I: Illuminant, O: Observer>(d: [f32; 4], k: int) -> real { slab::<I, O>(lch_xyz::<I, O>(d, 0), lch_xyz::<I, O>(d, 1), lch_xyz::<I, O>(d, 2), k) }
pub proof fn scaled(v: real, w: real) requires v >= 0real, 4real / 5real <= w <= 11real / 10real ensures near(labg(labf(v / w)) * w, v, 1real / 4000000real), labg(labf(v / w)) * w >= 0real {
    let q = v / w;
    assert(q >= 0real && q * w == v) by (nonlinear_arith) requires q == v / w, w > 0real, v >= 0real;
    gf(q);
    let g = labg(labf(q));
    assert(w * (1real / 5000000real) <= 1real / 4000000real);
    assert((g - q) * w <= 1real / 4000000real && (q - g) * w <= 1real / 4000000real) by (nonlinear_arith) requires near(g, q, 1real / 5000000real), 0real < w <= 11real / 10real;
    assert(g * w >= 0real) by (nonlinear_arith) requires g >= 0real, w > 0real;
    assert((g - q) * w == g * w - q * w && (q - g) * w == q * w - g * w) by (nonlinear_arith);
}
/// XYZ -> Lab -> XYZ
pub proof fn lab_back<I: Illuminant, O: Observer>(x: real, y: real, z: real, l: real, a: real, b: real)
    requires x >= 0real, y >= 0real, z >= 0real, l == slab::<I, O>(x, y, z, 0), a == slab::<I, O>(x, y, z, 1), b == slab::<I, O>(x, y, z, 2)
    ensures
        near(labx::<I, O>(l, a, b, 0), x, 1real / 4000000real), near(labx::<I, O>(l, a, b, 1), y, 1real / 4000000real), near(labx::<I, O>(l, a, b, 2), z, 1real / 4000000real),
        labx::<I, O>(l, a, b, 0) >= 0real, labx::<I, O>(l, a, b, 1) >= 0real, labx::<I, O>(l, a, b, 2) >= 0real,
{
    I::wref_ok(); O::col_ok();
    scaled(x, I::wref(O::col(), 0)); scaled(y, I::wref(O::col(), 1)); scaled(z, I::wref(O::col(), 2));
    let (fx, fy, fz) = (labf(x / I::wref(O::col(), 0)), labf(y / I::wref(O::col(), 1)), labf(z / I::wref(O::col(), 2)));
    let ry = (l * 100real + 16real) / 116real;
    assert(ry == fy);
    assert(a * 128real / 500real + ry == fx);
    assert(ry - b * 128real / 200real == fz);
}
pub proof fn xyz_pos(d: [f32; 4]) requires rgb01(d) ensures xyz3(d, 0) >= 0real, xyz3(d, 1) >= 0real, xyz3(d, 2) >= 0real {}
/// XYZ values close to those of a colour give that colour
pub proof fn xyz_back(d: [f32; 4], x: real, y: real, z: real)
    requires rgb01(d), near(x, xyz3(d, 0), 1real / 1000000real), near(y, xyz3(d, 1), 1real / 1000000real), near(z, xyz3(d, 2), 1real / 1000000real)
    ensures forall|k: int| 0 <= k < 3 ==> near(c01(#[trigger] s_XYZ_TO_RGB(x, y, z, k)), ch(d, k), 1real / 100000real)
{
    assert(near(s_XYZ_TO_RGB(x, y, z, 0), ch(d, 0), 1real / 100000real));
    assert(near(s_XYZ_TO_RGB(x, y, z, 1), ch(d, 1), 1real / 100000real));
    assert(near(s_XYZ_TO_RGB(x, y, z, 2), ch(d, 2), 1real / 100000real));
}
/// cosine and sine of atan2 (see the contract of atan2)
pub open spec fn polar(a: real, b: real, c: real, h: real) -> bool { c * rcos(h) == a && c * rsin(h) == b }
pub proof fn small_root(c: real, s: real, e: real) requires c >= 0real, c * c == s, s < e * e, e > 0real ensures c < e { assert(c < e) by (nonlinear_arith) requires c >= 0real, c * c < e * e, e > 0real; }
/// cube roots near 1
pub proof fn cbr_near1(v: real, e: real) requires 0real <= e < 1real / 10real, near(v, 1real, e) ensures near(cbr(v), 1real, e / 2real) {
    cbr_ok(v);
    let t = cbr(v);
    assert((t - 1real) * (t * t + t + 1real) == t * t * t - 1real) by (nonlinear_arith);
    assert(t >= 9real / 10real) by (nonlinear_arith) requires t * t * t == v, v > 9real / 10real, t >= 0real;
    assert(t * t + t + 1real >= 2real) by (nonlinear_arith) requires t >= 9real / 10real;
    let s = t * t + t + 1real;
    assert(t - 1real <= e / 2real && 1real - t <= e / 2real) by (nonlinear_arith) requires (t - 1real) * s == v - 1real, s >= 2real, v - 1real <= e, 1real - v <= e, e >= 0real;
}
'''


def lab_prelude():
    t = POW + GAM + TYPES + LABS + matrix(YUV, "RGB_TO_YUV") + matrix(YUV, "YUV_TO_RGB") + matrix(XYZ, "RGB_TO_XYZ") + matrix(XYZ, "XYZ_TO_RGB") + struct_src(LAB, "Lab") + struct_src(LAB, "Lch")
    for n, src in illuminants():
        v = ref_val(n, src)
        t += ("#[derive(Clone, Copy)]\npub struct %s {}\nimpl Illuminant for %s {\n    open spec fn wref(o: int, k: int) -> real { %s }\n    proof fn wref_ok() {}\n    fn get_refs() -> (r: &'static [[f32; 3]; 2]) { %s::refs_%s() }\n}\n" % (
            n, n, " else ".join("if o == %d && k == %d { %s }" % (o, k, rq(v[o][k])) for o in range(2) for k in range(3)) + " else { 1real }", n, n))
    for n, i in (("O2", 0), ("O10", 1)):
        t += "#[derive(Clone, Copy)]\npub struct %s {}\nimpl Observer for %s {\n    open spec fn col() -> int { %d }\n    proof fn col_ok() {}\n    fn get_refs(refs: &'static [[f32; 3]; 2]) -> (r: &'static [f32; 3]) { %s::refs_%s(refs) }\n}\n" % (n, n, i, n, n)
    return t


MATS = ("RGB_TO_YUV", "YUV_TO_RGB", "RGB_TO_XYZ", "XYZ_TO_RGB")
SAMEA = "r.data@[3] == self.data@[3]"
G0 = "<I0: Illuminant, O0: Observer>"


def conv_fns():
    def dot(i): return "dot3(ch(*@p0, 0), ch(*@p0, 1), ch(*@p0, 2), @p1@[%d]@[0].r(), @p1@[%d]@[1].r(), @p1@[%d]@[2].r())" % (i, i, i)
    f = [Fn(MOD, "apply_matrix", ens=["ch(r, %d) == %s" % (i, dot(i)) for i in range(3)] + ["r@[3] == @p0@[3]"]),
         Fn(MOD, "apply_matrix_clamped", ens=["ch(r, %d) == c01(%s)" % (i, dot(i)) for i in range(3)] + ["r@[3] == @p0@[3]"])]
    acc = [Fn(XYZ, "new_with_alpha", "Xyz", ens=["r.data@ =~= seq![@p0, @p1, @p2, @p3]"])] + [Fn(XYZ, n, "Xyz", ens=["r == self.data@[%d]" % i]) for i, n in enumerate(("x", "y", "z"))]
    acc += [Fn(LAB, "new_with_alpha", "Lab", ens=["r.data@ =~= seq![@p0, @p1, @p2, @p3]"])] + [Fn(LAB, n, "Lab", ens=["r == self.data@[%d]" % i]) for i, n in enumerate(("l", "a", "b"))]
    acc += [Fn(LAB, "new_with_alpha", "Lch", ens=["r.data@ =~= seq![@p0, @p1, @p2, @p3]"])] + [Fn(LAB, n, "Lch", ens=["r == self.data@[%d]" % i]) for i, n in enumerate(("l", "c", "h"))]
    acc += [Fn(fl, "alpha", ty, trait="Color", ens=["r == self.data@[3]"]) for fl, ty in ((XYZ, "Xyz"), (LAB, "Lab"), (LAB, "Lch"))]
    refs = [ref_fn(n, s) for n, s in illuminants()] + [Fn(LAB, "get_refs", n, selfty=("", n), as_name="refs_" + n, ens=["*r == @p0@[%d]" % i]) for n, i in (("O2", 0), ("O10", 1))]
    refs += [Fn(LAB, "get_refs", "", impl="", trait="", ens=["forall|k: int| 0 <= k < 3 ==> (#[trigger] r@[k]).r() == I::wref(O::col(), k)"], entry="proof { O::col_ok(); }")]
    wpos = "proof { I::wref_ok(); O::col_ok(); assert(I::wref(O::col(), 0) > 0real && I::wref(O::col(), 1) > 0real && I::wref(O::col(), 2) > 0real); }"
    K = range(3)
    y2r = ", ".join("s_YUV_TO_RGB(ch(self.data, 0), ch(self.data, 1), ch(self.data, 2), %d)" % k for k in K)
    x2r = "c01(s_XYZ_TO_RGB({0}, %d))"
    c = [Fn(MOD, "to_yuv", "Color", selfty=("", "Rgb"), consts=MATS, entry="proof { rows_RGB_TO_YUV(); }", ens=["ch(r.data, %d) == s_RGB_TO_YUV(srgb3(self.data, 0), srgb3(self.data, 1), srgb3(self.data, 2), %d)" % (k, k) for k in K]),
         Fn(YUV, "to_rgb", "Yuv", trait="Color", consts=MATS, entry="proof { rows_YUV_TO_RGB(); }", ens=["ch(r.data, %d) == c01(lin(s_YUV_TO_RGB(ch(self.data, 0), ch(self.data, 1), ch(self.data, 2), %d)))" % (k, k) for k in K]),
         Fn(MOD, "to_xyz", "Color", selfty=("", "Rgb"), consts=MATS, entry="proof { rows_RGB_TO_XYZ(); }", ens=["ch(r.data, %d) == xyz3(self.data, %d)" % (k, k) for k in K] + [SAMEA]),
         Fn(XYZ, "to_rgb", "Xyz", trait="Color", consts=MATS, entry="proof { rows_XYZ_TO_RGB(); }", ens=["ch(r.data, %d) == c01(s_XYZ_TO_RGB(ch(self.data, 0), ch(self.data, 1), ch(self.data, 2), %d))" % (k, k) for k in K] + [SAMEA]),
         Fn(MOD, "to_lab", "Color", nested="func", ens=["r.r() == labf(@p0.r())"]),
         Fn(LAB, "to_xyz", "Lab", trait="Color", nested="func", ens=["r.r() == labg(@p0.r())"]),
         Fn(MOD, "to_lab", "Color", selfty=("", "Rgb"), ens=["ch(r.data, %d) == lab3::<I, O>(self.data, %d)" % (k, k) for k in K] + [SAMEA], entry=wpos),
         Fn(MOD, "to_lab", "Color", selfty=(G0, "Lch<I0, O0>"), ens=["ch(r.data, %d) == slab::<I, O>(lch_xyz::<I0, O0>(self.data, 0), lch_xyz::<I0, O0>(self.data, 1), lch_xyz::<I0, O0>(self.data, 2), %d)" % (k, k) for k in K] + [SAMEA], entry=wpos),
         Fn(LAB, "to_xyz", "Lab", trait="Color", ens=["ch(r.data, %d) == lab_xyz::<I, O>(self.data, %d)" % (k, k) for k in K] + [SAMEA], entry="proof { O::col_ok(); }"),
         Fn(LAB, "to_rgb", "Lab", trait="Color", ens=["ch(r.data, %d) == c01(s_XYZ_TO_RGB(lab_xyz::<I, O>(self.data, 0), lab_xyz::<I, O>(self.data, 1), lab_xyz::<I, O>(self.data, 2), %d))" % (k, k) for k in K] + [SAMEA]),
         Fn(MOD, "to_lch", "Color", selfty=("", "Rgb"), ens=["ch(r.data, 0) == lab3::<I, O>(self.data, 0)", "ch(r.data, 1) >= 0real", "polar(lab3::<I, O>(self.data, 1), lab3::<I, O>(self.data, 2), ch(r.data, 1), ch(r.data, 2))",
             "rsq(ch(r.data, 1)) == rsq(lab3::<I, O>(self.data, 1)) + rsq(lab3::<I, O>(self.data, 2))", "0real - %s < ch(r.data, 2) < %s" % (vreal.PI, vreal.PI), SAMEA], exit="assert(rsq(@l3.r()) == rsq(@l2.r()) + rsq(@l1.r()));",
             entry="proof { let (ga, gb) = (lab3::<I, O>(self.data, 1), lab3::<I, O>(self.data, 2)); assert(ga * ga >= 0real && gb * gb >= 0real) by (nonlinear_arith); }"),
         Fn(LAB, "to_xyz", "Lch", trait="Color", ens=["ch(r.data, %d) == lch_xyz::<I, O>(self.data, %d)" % (k, k) for k in K] + [SAMEA]),
         Fn(LAB, "to_rgb", "Lch", trait="Color", ens=["ch(r.data, %d) == c01(s_XYZ_TO_RGB(lchx2::<I, O>(self.data, 0), lchx2::<I, O>(self.data, 1), lchx2::<I, O>(self.data, 2), %d))" % (k, k) for k in K] + [SAMEA]),
         ]
    return f + acc + refs + c


TH13P = r'''
/// XYZ -> Lab -> XYZ of the XYZ values of an LCh colour
pub open spec fn lchx2<I: Illuminant, O: Observer>(d: [f32; 4], k: int) -> real { labx::<I, O>(lch_lab::<I, O>(d, 0), lch_lab::<I, O>(d, 1), lch_lab::<I, O>(d, 2), k) }
pub proof fn white() ensures rpow(1real, 1real / 3real) == 1real {
    cbr_near1(1real, 0real);
}
'''
TH13 = """
fn xyz_and_back(c: &Rgb) -> Rgb { c.to_xyz().to_rgb() }
fn yuv_and_back(c: &Rgb) -> Rgb { c.to_yuv().to_rgb() }
fn lab_and_back<I: Illuminant, O: Observer>(c: &Rgb) -> Rgb { c.to_lab::<I, O>().to_rgb() }
fn lch_and_back<I: Illuminant, O: Observer>(c: &Rgb) -> Rgb { c.to_lch::<I, O>().to_rgb() }
fn gray_yuv(c: &Rgb) -> Yuv { c.to_yuv() }
fn white_lab(c: &Rgb) -> Lab<D65, O2> { c.to_lab::<D65, O2>() }
fn white_lch(c: &Rgb) -> Lch<D65, O2> { c.to_lch::<D65, O2>() }
"""


def th13():
    e = "1real / 100000real"
    N = ["near3(r.data, @p0.data, %s)" % e]
    P = ["rgb01(@p0.data)"]
    W = ["ch(@p0.data, 0) == 1real && ch(@p0.data, 1) == 1real && ch(@p0.data, 2) == 1real"]
    t4 = "1real / 10000real"
    D = "@p0.data"
    X = "xyz3(%s, 0), xyz3(%s, 1), xyz3(%s, 2)" % (D, D, D)
    L = "lab3::<I, O>(%s, 0), lab3::<I, O>(%s, 1), lab3::<I, O>(%s, 2)" % (D, D, D)
    LX = "labx::<I, O>(%s, 0), labx::<I, O>(%s, 1), labx::<I, O>(%s, 2)" % (L, L, L)
    lw = "lab3::<D65, O2>(@p0.data, %d)"
    return [
        Fn(None, "xyz_and_back", src=TH13, req=P, ens=N, entry="proof { xyz_back(%s, %s); }" % (D, X)),
        Fn(None, "yuv_and_back", src=TH13, req=P, ens=N, entry="proof { yuv_back(@p0.data, 0); yuv_back(@p0.data, 1); yuv_back(@p0.data, 2); }"),
        Fn(None, "lab_and_back", src=TH13, req=P, ens=N, entry="proof { xyz_pos(%s); lab_back::<I, O>(%s, %s); xyz_back(%s, %s); }" % (D, X, L, D, LX)),
        Fn(None, "lch_and_back", src=TH13, req=P, ens=N, entry="proof { xyz_pos(%s); lab_back::<I, O>(%s, %s); let (gx, gy, gz) = (%s); let (gl, ga, gb) = (slab::<I, O>(gx, gy, gz, 0), slab::<I, O>(gx, gy, gz, 1), slab::<I, O>(gx, gy, gz, 2)); lab_back::<I, O>(gx, gy, gz, gl, ga, gb); xyz_back(%s, labx::<I, O>(gl, ga, gb, 0), labx::<I, O>(gl, ga, gb, 1), labx::<I, O>(gl, ga, gb, 2)); }" % (D, X, L, LX, D)),
        Fn(None, "gray_yuv", src=TH13, req=P + ["ch(@p0.data, 0) == ch(@p0.data, 1) && ch(@p0.data, 1) == ch(@p0.data, 2)"], ens=["near(ch(r.data, 1), 0real, 1real / 1000000real) && near(ch(r.data, 2), 0real, 1real / 1000000real)", "near(ch(r.data, 0), srgb3(@p0.data, 0), 1real / 1000000real)"]),
        Fn(None, "white_lab", src=TH13, req=W, ens=["near(ch(r.data, 0), 1real, %s) && near(ch(r.data, 1), 0real, %s) && near(ch(r.data, 2), 0real, %s)" % (t4, t4, t4)], entry="proof { white_point(@p0.data); }"),
        Fn(None, "white_lch", src=TH13, req=W, ens=["near(ch(r.data, 0), 1real, %s) && near(ch(r.data, 1), 0real, %s)" % (t4, t4)], exit="", entry="proof { white_point(@p0.data); small_sq(%s, %s); }" % (lw % 1, lw % 2)),
    ]


TH13Q = r'''
/// q^(12/5) <= q^3 for q >= 1
pub proof fn pow_q(q: real) requires q >= 1real ensures rpow(q, 12real / 5real) <= q * q * q {
    let s = rpow(q, 12real / 5real);
    pow_pos(q, 12real / 5real); pow_pow(q, 12real / 5real, 5real); assert((12real / 5real) * 5real == 12real);
    let c = q * q * q;
    assert(c >= 0real) by (nonlinear_arith) requires c == q * q * q, q >= 1real;
    cube(q); pow_pow(q, 3real, 5real); assert(3real * 5real == 15real);
    // s^5 = q^12 <= q^15 = c^5
    pow_nat(q, 12); pow_nat(q, 15); assert(12nat as real == 12real && 15nat as real == 15real);
    npow_mono(q);
    if s > c { pow_mono(c, s, 5real); }
}
pub proof fn npow_mono(q: real) requires q >= 1real ensures npow(q, 12) <= npow(q, 15) {
    npow_ge1(q, 12);
    let (a, b, c, d) = (npow(q, 12), npow(q, 13), npow(q, 14), npow(q, 15));
    assert(b == q * a && c == q * b && d == q * c) by { reveal_with_fuel(npow, 2); }
    assert(b >= a) by (nonlinear_arith) requires b == q * a, q >= 1real, a >= 1real;
    assert(c >= b) by (nonlinear_arith) requires c == q * b, q >= 1real, b >= 1real;
    assert(d >= c) by (nonlinear_arith) requires d == q * c, q >= 1real, c >= 1real;
}
pub proof fn npow_ge1(q: real, n: nat) requires q >= 1real ensures npow(q, n) >= 1real decreases n {
    if n > 0 { npow_ge1(q, (n - 1) as nat); let p = npow(q, (n - 1) as nat); assert(q * p >= 1real) by (nonlinear_arith) requires q >= 1real, p >= 1real; }
}
/// growth of u^(12/5) above the junction
pub proof fn pow_lip(u: real, v: real, d: real) requires 9real / 100real <= u <= v <= 1real, v - u <= d, 0real <= d <= 1real / 1000real ensures rpow(v, 12real / 5real) - rpow(u, 12real / 5real) <= 35real * d {
    let q = v / u;
    assert(q * u == v && q >= 1real && (q - 1real) * u == v - u) by (nonlinear_arith) requires q == v / u, 0real < u <= v;
    assert(q - 1real <= d * 100real / 9real) by (nonlinear_arith) requires (q - 1real) * u <= d, u >= 9real / 100real, q >= 1real;
    let e = q - 1real;
    pow_mul(q, u, 12real / 5real); pow_q(q); pow_le(u, 1real, 12real / 5real); pow_one();
    let (p, r) = (rpow(u, 12real / 5real), rpow(q, 12real / 5real));
    assert(q * q * q == 1real + 3real * e + 3real * (e * e) + e * e * e) by (nonlinear_arith) requires q == 1real + e;
    assert(0real <= e * e && e * e <= e * (1real / 80real)) by (nonlinear_arith) requires 0real <= e <= 1real / 80real;
    assert(e * e * e <= e * (1real / 80real)) by (nonlinear_arith) requires 0real <= e <= 1real / 80real, 0real <= e * e <= e * (1real / 80real);
    assert(r - 1real <= 35real * d);
    pow_le(1real, q, 12real / 5real);
    assert(p * r - p <= 35real * d) by (nonlinear_arith) requires 0real <= p <= 1real, 0real <= r - 1real <= 35real * d;
}
pub proof fn lin_lip(a: real, b: real) requires unit(a), unit(b), a <= b <= a + 1real / 10000000real ensures 0real <= lin(b) - lin(a) <= 4real / 1000000real {
    junction(); transfer_monotone(a, b);
    let d = 1real / 10000000real;
    let (ua, ub, uj) = ((a + 55real / 1000real) / (1055real / 1000real), (b + 55real / 1000real) / (1055real / 1000real), (jn() + 55real / 1000real) / (1055real / 1000real));
    assert(9047393real / 100000000real <= uj <= 9047394real / 100000000real);
    if a > jn() { pow_lip(ua, ub, d); }
    else if b > jn() { pow_lip(uj, ub, d); assert(a / (1292real / 100real) >= 31307real / 10000000real); }
}
/// the clamped transfer of two close values, one of them in range
pub proof fn lin_close(s: real, t: real) requires unit(s), near(s, t, 1real / 10000000real) ensures near(c01(lin(t)), c01(lin(s)), 4real / 1000000real) {
    transfer_range(s); transfer_range(1real);
    let u = c01(t);
    transfer_range(u);
    if t > 1real { let ut = (t + 55real / 1000real) / (1055real / 1000real); pow_one(); pow_le(1real, ut, 12real / 5real); }
    if u <= s { lin_lip(u, s); } else { lin_lip(s, u); }
}
pub proof fn yuv_back(d: [f32; 4], k: int) requires rgb01(d), 0 <= k < 3
    ensures near(c01(lin(s_YUV_TO_RGB(yuv3(d, 0), yuv3(d, 1), yuv3(d, 2), k))), ch(d, k), 1real / 100000real)
{
    transfer_range(ch(d, 0)); transfer_range(ch(d, 1)); transfer_range(ch(d, 2));
    lin_gam(ch(d, k));
    lin_close(srgb3(d, k), s_YUV_TO_RGB(yuv3(d, 0), yuv3(d, 1), yuv3(d, 2), k));
    transfer_range(gam(ch(d, k)));
}
pub open spec fn yuv3(d: [f32; 4], k: int) -> real { s_RGB_TO_YUV(srgb3(d, 0), srgb3(d, 1), srgb3(d, 2), k) }
pub proof fn small_sq(a: real, b: real)
    requires near(a, 0real, 1real / 15000real), near(b, 0real, 1real / 15000real)
    ensures forall|c: real| c >= 0real && #[trigger] rsq(c) == rsq(a) + rsq(b) ==> c < 1real / 10000real
{
    let e = 1real / 15000real;
    assert(a * a <= e * e && b * b <= e * e) by (nonlinear_arith) requires 0real - e <= a <= e, 0real - e <= b <= e;
    assert forall|c: real| c >= 0real && #[trigger] rsq(c) == rsq(a) + rsq(b) implies c < 1real / 10000real by { small_root(c, rsq(c), 1real / 10000real); }
}
pub proof fn white_point(d: [f32; 4])
    requires ch(d, 0) == 1real, ch(d, 1) == 1real, ch(d, 2) == 1real
    ensures near(lab3::<D65, O2>(d, 0), 1real, 1real / 15000real), near(lab3::<D65, O2>(d, 1), 0real, 1real / 15000real), near(lab3::<D65, O2>(d, 2), 0real, 1real / 15000real)
{
    white();
    cbr_near1(xyz3(d, 0) / D65::wref(0, 0), 1real / 60000real);
    cbr_near1(xyz3(d, 1) / D65::wref(0, 1), 0real);
    cbr_near1(xyz3(d, 2) / D65::wref(0, 2), 1real / 12000real);
}
'''


def unit13():
    yield Unit("c13", lambda: lab_prelude() + TH13P + TH13Q, real=True).add(*gamma_fns()).add(*srgb_fns()).add(*conv_fns()).add(*th13())


# ------------------------------------------------------------------ C12
HS = r"""
pub open spec fn eps() -> real { 1real / 32768real }
pub open spec fn hf(h: real, dl: real) -> real { h * dl }
pub open spec fn mx3(d: [f32; 4]) -> real { let m = if ch(d, 0) >= ch(d, 1) { ch(d, 0) } else { ch(d, 1) }; if m >= ch(d, 2) { m } else { ch(d, 2) } }
pub open spec fn mn3(d: [f32; 4]) -> real { let m = if ch(d, 0) <= ch(d, 1) { ch(d, 0) } else { ch(d, 1) }; if m <= ch(d, 2) { m } else { ch(d, 2) } }
/// hue h of a colour with chroma dl > 0 (the sector of a channel that is the largest up to e)
pub open spec fn hue_of(d: [f32; 4], h: real, e: real) -> bool {
    let (r, g, b, m, dl) = (ch(d, 0), ch(d, 1), ch(d, 2), mx3(d), mx3(d) - mn3(d));
    (r >= m - e && g >= b && 6real * hf(h, dl) == g - b) || (r >= m - e && g <= b && 6real * hf(h, dl) == g - b + 6real * dl)
    || (g >= m - e && 6real * hf(h, dl) == b - r + 2real * dl) || (b >= m - e && 6real * hf(h, dl) == r - g + 4real * dl)
}
pub open spec fn is_hsl(d: [f32; 4], o: [f32; 4]) -> bool {
    let (m, n) = (mx3(d), mn3(d));
    ch(o, 2) == (m + n) / 2real && unit(ch(o, 0)) && unit(ch(o, 1)) &&
    if m - n < eps() { ch(o, 0) == 0real && ch(o, 1) == 0real }
    else { hue_of(d, ch(o, 0), eps()) && (ch(o, 2) <= 1real / 2real ==> ch(o, 1) * (m + n) == m - n) && (ch(o, 2) >= 1real / 2real ==> ch(o, 1) * (2real - m - n) == m - n) }
}
pub open spec fn is_hsv(d: [f32; 4], o: [f32; 4]) -> bool {
    let (m, n) = (mx3(d), mn3(d));
    ch(o, 2) == m && unit(ch(o, 0)) && unit(ch(o, 1)) &&
    if m - n < eps() { ch(o, 0) == 0real && ch(o, 1) == 0real } else { hue_of(d, ch(o, 0), 0real) && ch(o, 1) * m == m - n }
}
/// a difference x of two channels over the chroma, and the hues it gives
pub proof fn hue6(x: real, dl: real)
    requires dl > 0real, 0real - dl <= x <= dl
    ensures 0real - 1real <= x / dl <= 1real, (x / dl) * dl == x, x >= 0real ==> x / dl >= 0real, x <= 0real ==> x / dl <= 0real,
        forall|h: real| #![trigger hf(h, dl)] (6real * h == x / dl ==> 6real * hf(h, dl) == x) && (6real * h == x / dl + 2real ==> 6real * hf(h, dl) == x + 2real * dl)
            && (6real * h == x / dl + 4real ==> 6real * hf(h, dl) == x + 4real * dl) && (6real * h == x / dl + 6real ==> 6real * hf(h, dl) == x + 6real * dl)
{
    let q = x / dl;
    assert(q * dl == x && 0real - 1real <= q <= 1real && (x >= 0real ==> q >= 0real) && (x <= 0real ==> q <= 0real)) by (nonlinear_arith) requires q == x / dl, dl > 0real, 0real - dl <= x <= dl;
    assert forall|h: real| #![trigger hf(h, dl)] (6real * h == x / dl ==> 6real * hf(h, dl) == x) && (6real * h == x / dl + 2real ==> 6real * hf(h, dl) == x + 2real * dl)
            && (6real * h == x / dl + 4real ==> 6real * hf(h, dl) == x + 4real * dl) && (6real * h == x / dl + 6real ==> 6real * hf(h, dl) == x + 6real * dl) by {
        if 6real * h == q { hue_k(h, q, 0real, dl); } else if 6real * h == q + 2real { hue_k(h, q, 2real, dl); } else if 6real * h == q + 4real { hue_k(h, q, 4real, dl); } else if 6real * h == q + 6real { hue_k(h, q, 6real, dl); }
    }
}
pub proof fn hue_k(h: real, q: real, k: real, dl: real) requires 6real * h == q + k ensures 6real * hf(h, dl) == q * dl + k * dl { assert(6real * (h * dl) == q * dl + k * dl) by (nonlinear_arith) requires 6real * h == q + k; }
pub proof fn quot(a: real, b: real) requires b != 0real ensures (a / b) * b == a { assert((a / b) * b == a) by (nonlinear_arith) requires b != 0real; }
pub proof fn ratio01(a: real, b: real) requires 0real <= a <= b, b > 0real ensures 0real <= a / b <= 1real, (a / b) * b == a { assert(0real <= a / b && a / b <= 1real && (a / b) * b == a) by (nonlinear_arith) requires 0real <= a <= b, b > 0real; }
"""

HS += r"""
// ---- back to RGB: chroma times a trapezoid of the hue
pub open spec fn hsl_c(l: real, s: real) -> real { if l < 1real / 2real { 2real * hf(l, s) } else { 2real * (s - hf(l, s)) } }
pub open spec fn wrap1(t: real) -> real { let u = if t < 0real { t + 1real } else { t }; if u > 1real { u - 1real } else { u } }
pub open spec fn tri(t: real) -> real { let w = wrap1(t); if w < 1real / 6real { 6real * w } else if w < 1real / 2real { 1real } else if w < 2real / 3real { 6real * (2real / 3real - w) } else { 0real } }
pub open spec fn off(k: int) -> real { if k == 0 { 1real / 3real } else if k == 1 { 0real } else { 0real - 1real / 3real } }
pub open spec fn of_hsl(d: [f32; 4], k: int) -> real { let c = hsl_c(ch(d, 2), ch(d, 1)); ch(d, 2) - c / 2real + hf(c, tri(ch(d, 0) + off(k))) }
pub open spec fn all01(d: [f32; 4]) -> bool { unit(ch(d, 0)) && unit(ch(d, 1)) && unit(ch(d, 2)) }
pub open spec fn vtri(f: real, k: int) -> real {
    if k == 0 { if f < 1real { 0real } else if f < 2real { f - 1real } else if f < 4real { 1real } else if f < 5real { 5real - f } else { 0real } }
    else if k == 1 { if f < 1real { 1real - f } else if f < 3real { 0real } else if f < 4real { f - 3real } else { 1real } }
    else { if f < 2real { 1real } else if f < 3real { 3real - f } else if f < 5real { 0real } else { f - 5real } }
}
pub open spec fn six(h: real) -> real { if h >= 1real { 0real } else { 6real * h } }
pub open spec fn of_hsv(d: [f32; 4], k: int) -> real { ch(d, 2) - hf(hf(ch(d, 2), ch(d, 1)), vtri(six(ch(d, 0)), k)) }
pub proof fn mul3(a: real, w: real)
    ensures (a * 6real) * w == hf(a, 6real * w), (a * (2real / 3real - w)) * 6real == hf(a, 6real * (2real / 3real - w)), hf(a, 1real) == a, hf(a, 0real) == 0real
{ assert((a * 6real) * w == a * (6real * w) && (a * (2real / 3real - w)) * 6real == a * (6real * (2real / 3real - w))) by (nonlinear_arith); }
pub proof fn hslc_range(l: real, s: real)
    requires unit(l), unit(s)
    ensures 0real <= hsl_c(l, s), l - hsl_c(l, s) / 2real >= 0real, l + hsl_c(l, s) / 2real <= 1real, hf(l, s) == l * s, l * (1real + s) == l + hf(l, s), s == 0real ==> hsl_c(l, s) == 0real,
{ assert(0real <= l * s && l * s <= l && l * s <= s && l * (1real + s) == l + l * s && (1real - l) * (1real - s) >= 0real && (1real - l) * (1real - s) == 1real - l - s + l * s) by (nonlinear_arith) requires unit(l), unit(s); assert(s == 0real ==> l * s == 0real); }
pub proof fn zero_chroma(c: real) requires c == 0real ensures forall|w: real| #[trigger] hf(c, w) == 0real { assert forall|w: real| #[trigger] hf(c, w) == 0real by { assert(c * w == 0real) by (nonlinear_arith) requires c == 0real; } }
pub proof fn trirange(h: real, k: int) requires unit(h), 0 <= k < 3 ensures unit(tri(h + off(k))) {}
pub proof fn frac(c: real, w: real) requires c >= 0real, unit(w) ensures 0real <= hf(c, w) <= c { assert(0real <= c * w && c * w <= c) by (nonlinear_arith) requires c >= 0real, unit(w); }
pub proof fn of_hsl_range(d: [f32; 4])
    requires all01(d) ensures forall|k: int| 0 <= k < 3 ==> unit(#[trigger] of_hsl(d, k))
{
    let c = hsl_c(ch(d, 2), ch(d, 1));
    hslc_range(ch(d, 2), ch(d, 1));
    assert forall|k: int| 0 <= k < 3 implies unit(#[trigger] of_hsl(d, k)) by { trirange(ch(d, 0), k); frac(c, tri(ch(d, 0) + off(k))); }
}
pub proof fn of_hsv_range(d: [f32; 4])
    requires all01(d) ensures forall|k: int| 0 <= k < 3 ==> unit(#[trigger] of_hsv(d, k))
{
    let c = hf(ch(d, 2), ch(d, 1));
    frac(ch(d, 2), ch(d, 1));
    assert forall|k: int| 0 <= k < 3 implies unit(#[trigger] of_hsv(d, k)) by { frac(c, vtri(six(ch(d, 0)), k)); }
}
/// v(1 - s), v(1 - s f), v(1 - s (1 - f))
pub proof fn hsv_mul(v: real, s: real, f: real)
    ensures v * (1real - s) == v - hf(v, s), v * (1real - s * f) == v - hf(hf(v, s), f), v * (1real - s * (1real - f)) == v - hf(hf(v, s), 1real - f), hf(hf(v, s), 0real) == 0real, hf(hf(v, s), 1real) == hf(v, s), s == 0real ==> hf(v, s) == 0real && hf(hf(v, s), f) == 0real
{ assert(v * (1real - s) == v - v * s && v * (1real - s * f) == v - (v * s) * f && v * (1real - s * (1real - f)) == v - (v * s) * (1real - f)) by (nonlinear_arith); if s == 0real { assert(v * s == 0real) by (nonlinear_arith) requires s == 0real; assert((v * s) * f == 0real) by (nonlinear_arith) requires v * s == 0real; } }
/// products with a local whose value is known (any local)
pub proof fn prod_of(s: real, f: real)
    ensures forall|x: Fl| #![trigger x.r()] x.r() == f ==> s * x.r() == s * f && x.r() * s == s * f
{ assert forall|x: Fl| #![trigger x.r()] x.r() == f implies s * x.r() == s * f && x.r() * s == s * f by { let y = x.r(); assert(s * y == s * f && y * s == s * f) by (nonlinear_arith) requires y == f; } }
/// chroma of the converted colour
pub proof fn chroma_back(d: [f32; 4], o: [f32; 4])
    requires rgb01(d), is_hsl(d, o), mx3(d) - mn3(d) >= eps()
    ensures hsl_c(ch(o, 2), ch(o, 1)) == mx3(d) - mn3(d)
{
    let (l, s, m, n) = (ch(o, 2), ch(o, 1), mx3(d), mn3(d));
    assert(s * (m + n) == 2real * (l * s) && s * (2real - m - n) == 2real * (s - l * s)) by (nonlinear_arith) requires l == (m + n) / 2real;
}
pub proof fn tri_lin(h: real, dl: real, k: int)
    requires unit(h), 0 <= k < 3
    ensures ({ let t = wrap1(h + off(k)); let j = t - h; hf(dl, tri(h + off(k))) == if t < 1real / 6real { 6real * hf(h, dl) + 6real * (j * dl) } else if t < 1real / 2real { dl } else if t < 2real / 3real { 4real * dl - 6real * hf(h, dl) - 6real * (j * dl) } else { 0real } })
{
    let t = wrap1(h + off(k)); let j = t - h;
    assert(dl * (6real * (h + j)) == 6real * (h * dl) + 6real * (j * dl) && dl * (6real * (2real / 3real - (h + j))) == 4real * dl - 6real * (h * dl) - 6real * (j * dl)) by (nonlinear_arith);
    assert(t == h + j);
}
/// where a hue lies, from its position times the chroma
pub proof fn sec1(h: real, dl: real, x: real)
    requires dl > 0real ensures x * dl <= 6real * hf(h, dl) <==> x <= 6real * h, x * dl >= 6real * hf(h, dl) <==> x >= 6real * h
{ assert((x == 6real * h ==> x * dl == 6real * (h * dl)) && (x < 6real * h ==> x * dl < 6real * (h * dl)) && (x <= 6real * h ==> x * dl <= 6real * (h * dl)) && (x > 6real * h ==> x * dl > 6real * (h * dl))) by (nonlinear_arith) requires dl > 0real; }
pub proof fn hsl_back(d: [f32; 4], o: [f32; 4])
    requires rgb01(d), is_hsl(d, o)
    ensures forall|k: int| 0 <= k < 3 ==> near(#[trigger] of_hsl(o, k), ch(d, k), eps())
{
    let (h, s, dl) = (ch(o, 0), ch(o, 1), mx3(d) - mn3(d));
    hslc_range(ch(o, 2), s);
    if dl < eps() {
        assert forall|k: int| 0 <= k < 3 implies near(#[trigger] of_hsl(o, k), ch(d, k), eps()) by { mul3(0real, tri(h + off(k))); assert(hf(0real, tri(h + off(k))) == 0real) by (nonlinear_arith); }
    } else {
        chroma_back(d, o);
        assert forall|k: int| 0 <= k < 3 implies near(#[trigger] of_hsl(o, k), ch(d, k), eps()) by {
            hsl_back_k(d, o, k);
        }
    }
}
pub proof fn hsl_back_k(d: [f32; 4], o: [f32; 4], k: int)
    requires rgb01(d), is_hsl(d, o), mx3(d) - mn3(d) >= eps(), 0 <= k < 3, hsl_c(ch(o, 2), ch(o, 1)) == mx3(d) - mn3(d)
    ensures near(of_hsl(o, k), ch(d, k), eps())
{
    let (h, s, dl) = (ch(o, 0), ch(o, 1), mx3(d) - mn3(d));
    let t = wrap1(h + off(k)); let j = t - h;
    tri_lin(h, dl, k); jmul(j, dl); by_sector(h, dl);
    let (r, g, b, m) = (ch(d, 0), ch(d, 1), ch(d, 2), mx3(d));
    let H = 6real * hf(h, dl); let J = 3real * (j * dl); let T = hf(dl, tri(h + off(k)));
    assert(of_hsl(o, k) == m - dl + T);
    if k == 0 {
        assert(h <= 2real / 3real ==> J == dl); assert(h > 2real / 3real ==> J == 0real - 2real * dl);
        assert(T == if H < dl { dl } else if H < 2real * dl { 2real * dl - H } else if H <= 4real * dl { 0real } else if H < 5real * dl { H - 4real * dl } else { dl });
    } else if k == 1 {
        assert(J == 0real);
        assert(T == if H < dl { H } else if H < 3real * dl { dl } else if H < 4real * dl { 4real * dl - H } else { 0real });
    } else {
        assert(h < 1real / 3real ==> J == 2real * dl); assert(h >= 1real / 3real ==> J == 0real - dl);
        assert(T == if H < 2real * dl { 0real } else if H < 3real * dl { H - 2real * dl } else if H < 5real * dl { dl } else { 6real * dl - H });
    }
}
pub proof fn jmul(j: real, dl: real) ensures j == 0real ==> j * dl == 0real, 3real * j == 1real ==> 3real * (j * dl) == dl, 3real * j == 0real - 2real ==> 3real * (j * dl) == 0real - 2real * dl, 3real * j == 0real - 1real ==> 3real * (j * dl) == 0real - dl, 3real * j == 2real ==> 3real * (j * dl) == 2real * dl {
    assert(j == 0real ==> j * dl == 0real) by (nonlinear_arith);
    assert(3real * j == 1real ==> 3real * (j * dl) == dl) by (nonlinear_arith);
    assert(3real * j == 0real - 2real ==> 3real * (j * dl) == 0real - 2real * dl) by (nonlinear_arith);
    assert(3real * j == 0real - 1real ==> 3real * (j * dl) == 0real - dl) by (nonlinear_arith);
    assert(3real * j == 2real ==> 3real * (j * dl) == 2real * dl) by (nonlinear_arith);
}
pub proof fn by_sector(h: real, dl: real)
    requires dl > 0real, unit(h)
    ensures 6real * h >= 1real <==> 6real * hf(h, dl) >= dl, 6real * h >= 2real <==> 6real * hf(h, dl) >= 2real * dl, 6real * h >= 3real <==> 6real * hf(h, dl) >= 3real * dl,
        6real * h >= 4real <==> 6real * hf(h, dl) >= 4real * dl, 6real * h <= 4real <==> 6real * hf(h, dl) <= 4real * dl, 6real * h >= 5real <==> 6real * hf(h, dl) >= 5real * dl, 0real <= hf(h, dl) <= dl, h == 0real <==> hf(h, dl) == 0real, h == 1real <==> hf(h, dl) == dl
{ sec1(h, dl, 1real); sec1(h, dl, 2real); sec1(h, dl, 3real); sec1(h, dl, 4real); sec1(h, dl, 5real);
  assert(0real <= h * dl && h * dl <= dl && (h == 0real ==> h * dl == 0real) && (h > 0real ==> h * dl > 0real) && (h < 1real ==> h * dl < dl) && (h == 1real ==> h * dl == dl)) by (nonlinear_arith) requires dl > 0real, unit(h); }
pub proof fn vtri_lin(h: real, dl: real, k: int)
    requires unit(h), dl >= 0real, 0 <= k < 3
    ensures ({ let f = six(h); let F = if h >= 1real { 0real } else { 6real * hf(h, dl) }; hf(dl, vtri(f, k)) ==
        if k == 0 { if f < 1real { 0real } else if f < 2real { F - dl } else if f < 4real { dl } else if f < 5real { 5real * dl - F } else { 0real } }
        else if k == 1 { if f < 1real { dl - F } else if f < 3real { 0real } else if f < 4real { F - 3real * dl } else { dl } }
        else { if f < 2real { dl } else if f < 3real { 3real * dl - F } else if f < 5real { 0real } else { F - 5real * dl } } })
{
    let f = six(h);
    assert(f == 6real * h ==> dl * f == 6real * (h * dl)) by (nonlinear_arith);
    assert(f == 0real ==> dl * f == 0real) by (nonlinear_arith);
    assert(dl * (f - 1real) == dl * f - dl && dl * (5real - f) == 5real * dl - dl * f && dl * (1real - f) == dl - dl * f && dl * (f - 3real) == dl * f - 3real * dl && dl * (3real - f) == 3real * dl - dl * f && dl * (f - 5real) == dl * f - 5real * dl) by (nonlinear_arith);
    mul3(dl, 0real);
}
pub proof fn hsv_back(d: [f32; 4], o: [f32; 4])
    requires rgb01(d), is_hsv(d, o)
    ensures forall|k: int| 0 <= k < 3 ==> near(#[trigger] of_hsv(o, k), ch(d, k), eps())
{
    let (h, s, v, dl) = (ch(o, 0), ch(o, 1), ch(o, 2), mx3(d) - mn3(d));
    assert(hf(v, s) == s * v) by (nonlinear_arith);
    if dl < eps() {
        assert forall|k: int| 0 <= k < 3 implies near(#[trigger] of_hsv(o, k), ch(d, k), eps()) by { let w = vtri(six(h), k); assert(s * v == 0real) by (nonlinear_arith) requires s == 0real; assert(hf(0real, w) == 0real) by (nonlinear_arith); }
    } else {
        by_sector(h, dl);
        assert forall|k: int| 0 <= k < 3 implies near(#[trigger] of_hsv(o, k), ch(d, k), eps()) by { vtri_lin(h, dl, k); }
    }
}
"""


HS += "".join("pub proof fn hs%s_back2(d: [f32; 4]) requires rgb01(d) ensures forall|o: [f32; 4]| #[trigger] is_hs%s(d, o) ==> (forall|k: int| 0 <= k < 3 ==> near(#[trigger] of_hs%s(o, k), ch(d, k), eps()))\n{ assert forall|o: [f32; 4]| #[trigger] is_hs%s(d, o) implies (forall|k: int| 0 <= k < 3 ==> near(#[trigger] of_hs%s(o, k), ch(d, k), eps())) by { hs%s_back(d, o); } }\n" % ((x,) * 6) for x in "lv")
TH12 = """
fn hsl_and_back(c: Rgb) -> Rgb { let h = c.to_hsl(); h.to_rgb() }
fn hsv_and_back(c: Rgb) -> Rgb { let h = c.to_hsv(); h.to_rgb() }
fn hsl_range(c: Rgb) -> Hsl { c.to_hsl() }
fn hsv_range(c: Rgb) -> Hsv { c.to_hsv() }
fn hsl_to_rgb_range(h: Hsl) -> Rgb { h.to_rgb() }
fn hsv_to_rgb_range(h: Hsv) -> Rgb { h.to_rgb() }
"""


def hs_fns():
    acc = [Fn(RGB, n, "Rgb", ens=["r == self.data@[%d]" % i]) for i, n in enumerate(("red", "green", "blue"))] + [Fn(RGB, "alpha", "Rgb", trait="Color", ens=["r == self.data@[3]"])]
    acc += [Fn(HSL, n, "Hsl", ens=["r == self.data@[%d]" % i]) for i, n in enumerate(("hue", "saturation", "lightness"))] + [Fn(HSL, "alpha", "Hsl", trait="Color", ens=["r == self.data@[3]"])]
    acc += [Fn(HSV, n, "Hsv", ens=["r == self.data@[%d]" % i]) for i, n in enumerate(("hue", "saturation", "value"))] + [Fn(HSV, "alpha", "Hsv", trait="Color", ens=["r == self.data@[3]"])]
    P = ["rgb01(self.data)"]
    mm = [Fn(RGB, "max", "Rgb", req=P, ens=["r.r() == mx3(self.data)"]), Fn(RGB, "min", "Rgb", req=P, ens=["r.r() == mn3(self.data)"])]
    D = "self.data"
    q = "proof { let (gr, gg, gb, gm, gn) = (ch(%s, 0), ch(%s, 1), ch(%s, 2), mx3(%s), mn3(%s)); let gd = gm - gn; if gd > 0real { hue6(gg - gb, gd); hue6(gb - gr, gd); hue6(gr - gg, gd); ratio01(gd, gm); if gm + gn < 2real { ratio01(gd, gm + gn); if 2real - gm - gn >= gd { ratio01(gd, 2real - gm - gn); } } } }" % ((D,) * 5)
    conv = [Fn(MOD, "to_hsl", "Color", selfty=("", "Rgb"), consts=("EPSILON",), req=P, ens=["is_hsl(self.data, r.data)", "r.data@[3] == self.data@[3]"], entry=q),
            Fn(MOD, "to_hsv", "Color", selfty=("", "Rgb"), consts=("EPSILON",), req=P, ens=["is_hsv(self.data, r.data)", "r.data@[3] == self.data@[3]"], entry=q)]
    hin = "hslc_range(self.data@[2].r(), self.data@[1].r()); of_hsl_range(self.data); mul3(hsl_c(self.data@[2].r(), self.data@[1].r()), 0real); let c_ = hsl_c(self.data@[2].r(), self.data@[1].r()); if c_ == 0real { zero_chroma(c_); }"
    P1 = ["all01(self.data)"]
    back = [Fn(HSL, "to_rgb", "Hsl", trait="Color", nested="hue2rgb", req=["0real - 1real / 3real <= @p2.r() <= 4real / 3real"], ens=["r.r() == @p0.r() + hf(@p1.r() - @p0.r(), tri(@p2.r()))"],
               entry="proof { mul3(@p1.r() - @p0.r(), wrap1(@p2.r())); }"),
            Fn(HSL, "to_rgb", "Hsl", trait="Color", req=P1, ens=["forall|k: int| 0 <= k < 3 ==> #[trigger] ch(r.data, k) == of_hsl(self.data, k)", "rgb01(r.data)", "ch(r.data, 3) == c01(ch(self.data, 3))"], entry="proof { %s }" % hin),
            Fn(HSV, "to_rgb", "Hsv", trait="Color", req=P1, ens=["forall|k: int| 0 <= k < 3 ==> #[trigger] ch(r.data, k) == of_hsv(self.data, k)", "rgb01(r.data)", "ch(self.data, 1) > 0real ==> ch(r.data, 3) == c01(ch(self.data, 3))"],
               entry="proof { of_hsv_range(self.data); let h6 = six(ch(self.data, 0)); let f_ = h6 - h6.floor() as real; hsv_mul(ch(self.data, 2), ch(self.data, 1), f_); let (s_, v_) = (ch(self.data, 1), ch(self.data, 2)); prod_of(s_, f_); prod_of(s_, 1real - f_); prod_of(v_, 1real - s_); prod_of(v_, 1real - s_ * f_); prod_of(v_, 1real - s_ * (1real - f_)); }")]
    q0 = ["rgb01(@p0.data)"]
    gray = "ch(@p0.data, 0) == ch(@p0.data, 1) && ch(@p0.data, 1) == ch(@p0.data, 2) ==> ch(r.data, 0) == 0real && ch(r.data, 1) == 0real"
    th = []
    for n, ty in (("hsl", "Hsl"), ("hsv", "Hsv")):
        th += [Fn(None, n + "_and_back", src=TH12, req=q0, ens=["near3(r.data, @p0.data, eps())"], entry="proof { %s_back2(@p0.data); }" % n),
               Fn(None, n + "_range", src=TH12, req=q0, ens=["all01(r.data)", gray]),
               Fn(None, n + "_to_rgb_range", src=TH12, req=["all01(@p0.data)"], ens=["rgb01(r.data)"])]
    return acc + mm + conv + back + th


def unit12():
    yield Unit("c12", lambda: GAM0 + TYPES + HS + const_fn(MOD, "EPSILON"), real=True).add(*gamma_fns()[:1]).add(*srgb_fns()[:1]).add(*srgb_fns()[2:3]).add(*hs_fns())
