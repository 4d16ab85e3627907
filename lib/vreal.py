"""Real-number reading of f32 code: every f32 is an opaque Fl with a real value; + - * / and the f32 methods have their
real meaning, division by zero and square roots of negative numbers are proof obligations.  Rounding, overflow and
NaN inputs are outside this reading (assumption, stated in evidence and DESIGN.md)."""
import re
import rast
from rast import Unsupported


def _ops(comm=False):
    t = ""
    for tr, m, sy, pre in (("Add", "add", "+", None), ("Sub", "sub", "-", None), ("Mul", "mul", "*", None), ("Div", "div", "/", "{b}.r() != 0real")):
        for a in ("Fl", "&'a Fl"):
            for b in ("Fl", "&'b Fl"):
                g = "<" + ", ".join(x for x, y in (("'a", a), ("'b", b)) if "'" in y) + ">" if "'" in a + b else ""
                A = "(*self)" if "&" in a else "self"
                B = "(*o)" if "&" in b else "o"
                req = pre.format(b=B) if pre else "true"
                t += ("impl%s vstd::std_specs::ops::%sSpecImpl<%s> for %s {\n  open spec fn obeys_%s_spec() -> bool { true }\n  open spec fn %s_req(self, o: %s) -> bool { %s }\n"
                      "  open spec fn %s_spec(self, o: %s) -> Fl { mk(%s.r() %s %s.r()) }\n}\n" % (g, tr, b, a, m, m, b, req, m, b, A, sy, B))
                t += "impl%s core::ops::%s<%s> for %s { type Output = Fl; #[verifier::external_body] fn %s(self, o: %s) -> (r: Fl)%s { unimplemented!() } }\n" % (g, tr, b, a, m, b, " ensures r.r() == {1}.r() * {0}.r(), {0}.r() == 0real || {1}.r() == 0real ==> r.r() == 0real, {0}.r() == 1real ==> r.r() == {1}.r(), {1}.r() == 1real ==> r.r() == {0}.r()".format(A, B) if comm and m == "mul" else "")
    for a in ("Fl", "&'a Fl"):
        g = "<'a>" if "'" in a else ""
        A = "(*self)" if "&" in a else "self"
        t += ("impl%s vstd::std_specs::ops::NegSpecImpl for %s {\n  open spec fn obeys_neg_spec() -> bool { true }\n  open spec fn neg_req(self) -> bool { true }\n  open spec fn neg_spec(self) -> Fl { mk(0real - %s.r()) }\n}\n" % (g, a, A))
        t += "impl%s core::ops::Neg for %s { type Output = Fl; #[verifier::external_body] fn neg(self) -> (r: Fl) { unimplemented!() } }\n" % (g, a)
    return t


FL = r'''
// ---- real-number reading of f32
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Fl { x: f32 }
pub uninterp spec fn mk(r: real) -> Fl;
pub broadcast axiom fn mk_r(x: real) ensures #[trigger] mk(x).r() == x;
pub broadcast axiom fn r_mk(f: Fl) ensures #![trigger f.r()] mk(f.r()) == f;
impl Fl {
    pub uninterp spec fn r(self) -> real;
    #[verifier::external_body] pub fn v_min(self, o: Fl) -> (r: Fl) ensures r.r() == if self.r() <= o.r() { self.r() } else { o.r() } { unimplemented!() }
    #[verifier::external_body] pub fn v_max(self, o: Fl) -> (r: Fl) ensures r.r() == if self.r() <= o.r() { o.r() } else { self.r() } { unimplemented!() }
    #[verifier::external_body] pub fn v_clamp(self, a: Fl, b: Fl) -> (r: Fl) requires a.r() <= b.r() ensures r.r() == rclamp(self.r(), a.r(), b.r()) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: Fl) ensures r.r() == rabs(self.r()) { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: Fl) requires self.r() >= 0real ensures r.r() >= 0real, r.r() * r.r() == self.r() { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (r: Fl) ensures r.r() == rfloor(self.r()) as real { unimplemented!() }
    #[verifier::external_body] pub fn ceil(self) -> (r: Fl) ensures r.r() == rceil(self.r()) as real { unimplemented!() }
    #[verifier::external_body] pub fn round(self) -> (r: Fl) ensures r.r() == rround(self.r()) as real { unimplemented!() }
    #[verifier::external_body] pub fn powf(self, o: Fl) -> (r: Fl) requires pow_ok(self.r(), o.r()) ensures r.r() == rpow(self.r(), o.r()) { unimplemented!() }
    #[verifier::external_body] pub fn pow(self, o: Fl) -> (r: Fl) requires pow_ok(self.r(), o.r()) ensures r.r() == rpow(self.r(), o.r()) { unimplemented!() }
    #[verifier::external_body] pub fn powi(self, o: i32) -> (r: Fl) requires self.r() != 0real || o >= 0 ensures r.r() == rpow(self.r(), o as real) { unimplemented!() }
    #[verifier::external_body] pub fn cbrt(self) -> (r: Fl) ensures r.r() * r.r() * r.r() == self.r() { unimplemented!() }
    #[verifier::external_body] pub fn tanh(self) -> (r: Fl) ensures r.r() == rtanh(self.r()), -1real < r.r() < 1real, self.r() > 0real <==> r.r() > 0real, self.r() == 0real <==> r.r() == 0real { unimplemented!() }
    #[verifier::external_body] pub fn exp(self) -> (r: Fl) ensures r.r() > 0real { unimplemented!() }
    #[verifier::external_body] pub fn sin(self) -> (r: Fl) ensures r.r() == rsin(self.r()), -1real <= r.r() <= 1real { unimplemented!() }
    #[verifier::external_body] pub fn cos(self) -> (r: Fl) ensures r.r() == rcos(self.r()), -1real <= r.r() <= 1real { unimplemented!() }
    #[verifier::external_body] pub fn atan2(self, o: Fl) -> (r: Fl) ensures forall|c: real| c >= 0real && #[trigger] rsq(c) == rsq(self.r()) + rsq(o.r()) ==> c * rcos(r.r()) == o.r() && c * rsin(r.r()) == self.r(), 0real - (13176795real / 4194304real) < r.r() < 13176795real / 4194304real { unimplemented!() }
    #[verifier::external_body] pub fn v_i32(self) -> (r: i32) ensures r as int == isat(rtrunc(self.r()), i32::MIN as int, i32::MAX as int) { unimplemented!() }
    #[verifier::external_body] pub fn v_u32(self) -> (r: u32) ensures r as int == isat(rtrunc(self.r()), 0, u32::MAX as int) { unimplemented!() }
    #[verifier::external_body] pub fn v_usize(self) -> (r: usize) ensures r as int == isat(rtrunc(self.r()), 0, usize::MAX as int) { unimplemented!() }
    #[verifier::external_body] pub fn v_isize(self) -> (r: isize) ensures r as int == isat(rtrunc(self.r()), isize::MIN as int, isize::MAX as int) { unimplemented!() }
    #[verifier::external_body] pub fn v_u8(self) -> (r: u8) ensures r as int == isat(rtrunc(self.r()), 0, u8::MAX as int) { unimplemented!() }
    #[verifier::external_body] pub fn v_u16(self) -> (r: u16) ensures r as int == isat(rtrunc(self.r()), 0, u16::MAX as int) { unimplemented!() }
    #[verifier::external_body] pub fn v_fl(self) -> (r: Fl) ensures r == self { unimplemented!() }
}
#[verifier::nonlinear]
pub fn fmul(a: Fl, b: Fl) -> (r: Fl)
    ensures r.r() == a.r() * b.r(), a.r() >= 0real && b.r() >= 0real ==> r.r() >= 0real, a.r() > 0real && b.r() > 0real ==> r.r() > 0real, a == b ==> r.r() >= 0real,
        a.r() == 0real || b.r() == 0real ==> r.r() == 0real, a.r() == 1real ==> r.r() == b.r(), b.r() == 1real ==> r.r() == a.r()
{ broadcast use mk_r; a * b }
pub fn fdiv(a: Fl, b: Fl) -> (r: Fl)
    requires b.r() != 0real
    ensures r.r() == a.r() / b.r(), r.r() * b.r() == a.r(), a.r() >= 0real && b.r() > 0real ==> r.r() >= 0real, a.r() > 0real && b.r() > 0real ==> r.r() > 0real, b.r() == 1real ==> r.r() == a.r(), a.r() <= b.r() && b.r() > 0real ==> r.r() <= 1real
{
    broadcast use mk_r;
    let r = a / b;
    proof {
        let (x, y) = (a.r(), b.r());
        let q = x / y;
        assert(q * y == x) by (nonlinear_arith) requires y != 0real, q == x / y;
        if x >= 0real && y > 0real { assert(q >= 0real) by (nonlinear_arith) requires q * y == x, x >= 0real, y > 0real; }
        if x <= y && y > 0real { assert(q <= 1real) by (nonlinear_arith) requires q * y == x, x <= y, y > 0real; }
        if x > 0real && y > 0real { assert(q > 0real) by (nonlinear_arith) requires q * y == x, x > 0real, y > 0real; }
    }
    r
}
pub open spec fn rabs(x: real) -> real { if x < 0real { 0real - x } else { x } }
pub open spec fn rclamp(x: real, a: real, b: real) -> real { if x < a { a } else if x > b { b } else { x } }
pub open spec fn isat(x: int, a: int, b: int) -> int { if x < a { a } else if x > b { b } else { x } }
pub open spec fn rfloor(x: real) -> int { x.floor() }
pub open spec fn rceil(x: real) -> int { -((0real - x).floor()) }
pub open spec fn rround(x: real) -> int { if x >= 0real { (x + 1real / 2real).floor() } else { -((0real - x + 1real / 2real).floor()) } }
pub open spec fn rtrunc(x: real) -> int { if x >= 0real { x.floor() } else { -((0real - x).floor()) } }
pub open spec fn rsq(x: real) -> real { x * x }
pub uninterp spec fn rpow(x: real, y: real) -> real;
pub uninterp spec fn rtanh(x: real) -> real;
/// x^y is a number
pub open spec fn pow_ok(x: real, y: real) -> bool { x > 0real || (x == 0real && y >= 0real) }
pub uninterp spec fn rsin(x: real) -> real;
pub uninterp spec fn rcos(x: real) -> real;
/// a decimal literal
#[verifier::external_body] pub fn fl(Ghost(v): Ghost<real>) -> (r: Fl) ensures r.r() == v { unimplemented!() }
pub trait ToFl: Sized { spec fn ri(self) -> real; fn v_fl(self) -> (r: Fl) ensures r.r() == self.ri(); }
''' + "".join("impl ToFl for %s { open spec fn ri(self) -> real { self as int as real } #[verifier::external_body] fn v_fl(self) -> (r: Fl) { unimplemented!() } }\n" % t for t in ("u8", "u16", "u32", "i32", "usize", "isize", "u64")) + r'''
impl vstd::std_specs::cmp::PartialEqSpecImpl for Fl {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Fl) -> bool { self.r() == o.r() }
}
impl core::cmp::PartialEq for Fl { #[verifier::external_body] fn eq(&self, o: &Fl) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Fl {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Fl) -> Option<core::cmp::Ordering> { if self.r() < o.r() { Some(core::cmp::Ordering::Less) } else if self.r() > o.r() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } }
}
impl core::cmp::PartialOrd for Fl { #[verifier::external_body] fn partial_cmp(&self, o: &Fl) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
'''


def prelude_text(comm=False):
    return "pub mod flreal { use vstd::prelude::*;\n" + (FL.replace("ensures r.r() == a.r() * b.r(),", "ensures r.r() == a.r() * b.r(), r.r() == b.r() * a.r(),", 1) if comm else FL) + _ops(comm) + "}\npub use flreal::*;\nbroadcast use {flreal::mk_r, flreal::r_mk};\n"


def rlit(t):
    """decimal literal -> exact real expression"""
    t = re.sub(r"_?f(32|64)$", "", t).replace("_", "")
    m = re.match(r"^(\d*)\.?(\d*)(?:[eE]([-+]?\d+))?$", t)
    if not m: raise Unsupported("literal " + t)
    a, b, e = m.group(1) or "0", m.group(2) or "", int(m.group(3) or 0)
    n, d = int(a + b), len(b) - e
    while n and n % 10 == 0 and d > 0: n //= 10; d -= 1
    if n == 0: return "0real"
    return "%dreal" % (n * 10 ** (-d)) if d <= 0 else "(%dreal / %dreal)" % (n, 10 ** d)


# f32::consts::PI; it is above the number pi, so that an angle returned by atan2 lies strictly between -PI and PI
PI = "(13176795real / 4194304real)"
CONSTS = {"f32::EPSILON": "(1real / 8388608real)", "std::f32::EPSILON": "(1real / 8388608real)", "PI": PI, "f32::consts::PI": PI, "std::f32::consts::PI": PI,
          "f32::MAX": "340282346638528859811704183484516925440real", "f32::MIN": "(0real - 340282346638528859811704183484516925440real)",
          "std::f32::MAX": "340282346638528859811704183484516925440real"}


def reals(body, floaty=(), signed=False):
    """AST of a lowered body -> the same body over Fl"""
    # a name that is rebound to an integer is not a float any more (but the cast that rebinds it is one from a float)
    ints = {n["p"]["n"] for n in rast.walk(body) if n.get("k") == "let" and n["p"].get("k") == "id" and n.get("e") is not None and rast.strip(n["e"]).get("k") == "cast" and rast.strip(n["e"])["ty"].strip() not in ("f32", "f64")}
    params, floaty = set(floaty), set(floaty) - ints
    for _ in range(4):
        for n in rast.walk(body):
            if n.get("k") == "let" and n["p"].get("k") == "id" and n["p"]["n"] not in ints and n.get("e") is not None and (n.get("ty") in ("f32", "f64") or n["ty"] is None and isfloat(n["e"], floaty)): floaty.add(n["p"]["n"])
    def f(n):
        k = n.get("k")
        if k == "lit" and (n.get("ty") == "float" or re.search(r"\df(32|64)$", n.get("t", ""))):
            return {"k": "rawe", "t": "fl(Ghost(%s))" % rlit(n["t"])}
        if k == "path" and n["p"] in CONSTS:
            return {"k": "rawe", "t": "fl(Ghost(%s))" % CONSTS[n["p"]]}
        if k == "call" and n["f"].get("k") == "path" and n["f"]["p"].replace(" ", "") in ("f32::from", "f64::from") and len(n["a"]) == 1:
            return rast.mcall(rast.paren(n["a"][0]), "v_fl")
        if k == "cast":
            ty = n["ty"].strip()
            if ty in ("f32", "f64"): return rast.mcall(n["e"] if n["e"]["k"] in ("path", "paren", "field", "mcall", "call", "index") else rast.paren(n["e"]), "v_fl")
            e = rast.strip(n["e"])
            if isfloat(e, floaty | params): return rast.mcall(rast.paren(n["e"]), "v_" + ty)
            return n
        if k == "bin" and n["op"] in ("+=", "-=", "*=", "/="):
            l = rast.strip(n["l"])
            if not (l["k"] == "path" and l["p"].startswith("_i")):
                return {"k": "assign", "l": n["l"], "r": rast.binop(n["op"][0], n["l"], rast.paren(n["r"]))}
        for key in ("ty", "ret", "tf"):
            if isinstance(n.get(key), str): n = dict(n, **{key: ty_sub(n[key])}) if key != "ty" or k in ("let", "typed", "cast", "closure") else n
        return n
    body = rast.rewrite(body, f)
    if signed:
        # products and quotients through verified wrappers that also state their sign
        def g(n):
            if n.get("k") == "bin" and n["op"] in ("*", "/") and (isfloat(n["l"], floaty) or isfloat(n["r"], floaty)):
                return rast.call("fmul" if n["op"] == "*" else "fdiv", n["l"], n["r"])
            return n
        body = rast.rewrite(body, g)
    return body


def ty_sub(t):
    return re.sub(r"\bf(32|64)\b", "Fl", t)


def isfloat(e, floaty):
    e = rast.strip(e)
    if e["k"] == "mcall" and e["m"] in ("floor", "ceil", "round", "sqrt", "abs", "powf", "v_fl", "cbrt", "exp", "sin", "cos", "tanh"): return True
    if e["k"] == "call" and e["f"].get("p") in ("fmul", "fdiv"): return True
    if e["k"] == "mcall" and e["m"] in ("v_min", "v_max", "v_clamp"): return isfloat(e["e"], floaty) or any(isfloat(a, floaty) for a in e["a"])
    if e["k"] == "rawe" and e["t"].startswith("fl("): return True
    if e["k"] == "lit": return e.get("ty") == "float" or bool(re.search(r"\df(32|64)$", e.get("t", "")))
    if e["k"] == "cast": return e["ty"].strip() in ("f32", "f64")
    if e["k"] == "bin" and e["op"] in "+-*/": return isfloat(e["l"], floaty) or isfloat(e["r"], floaty)
    if e["k"] == "un": return isfloat(e["e"], floaty)
    if e["k"] == "path": return e["p"] in floaty
    return False
