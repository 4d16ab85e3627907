"""Contracts of palette reduction (C23), distances over the reals."""
from weave import Fn, Loop, Unit
import vcore
from vcore import PB, prelude, SPEC_CALLS

AP, LA = "d10-ops/src/apply_palette.rs", "d10-core/src/color/lab.rs"
L = "Lab<D65, O2>"

PAL = r'''
pub trait VDf<T> { spec fn dv(self) -> T; fn v_unwrap_or_default(self) -> (r: T) ensures r == self.dv(); }
impl<T: Color> VDf<T> for Option<T> {
    open spec fn dv(self) -> T { match self { Some(x) => x, None => T::dflt() } }
    fn v_unwrap_or_default(self) -> (r: T) { match self { Some(x) => x, None => T::default() } }
}
/// squared Lab distance
pub open spec fn d2(a: Lab<D65, O2>, b: Lab<D65, O2>) -> real {
    (a.data@[0].r() - b.data@[0].r()) * (a.data@[0].r() - b.data@[0].r()) + (a.data@[1].r() - b.data@[1].r()) * (a.data@[1].r() - b.data@[1].r()) + (a.data@[2].r() - b.data@[2].r()) * (a.data@[2].r() - b.data@[2].r())
}
pub open spec fn fmax() -> real { 340282346638528859811704183484516925440real }
/// entry k of p is the first of the entries nearest to c, among the first n
pub open spec fn first_nearest(p: Seq<Lab<D65, O2>>, c: Lab<D65, O2>, k: int, n: int) -> bool {
    0 <= k < n && (forall|j: int| 0 <= j < n ==> d2(c, p[k]) <= (#[trigger] d2(c, p[j]))) && (forall|j: int| 0 <= j < k ==> d2(c, p[k]) < (#[trigger] d2(c, p[j])))
}
/// distances are representable (Lab channels of a displayable colour are of order 1)
pub open spec fn modest(p: Seq<Lab<D65, O2>>, c: Lab<D65, O2>) -> bool { forall|j: int| 0 <= j < p.len() ==> (#[trigger] d2(c, p[j])) < fmax() * fmax() }
/// the colour a palette gives for c
pub open spec fn reduced(p: Seq<Lab<D65, O2>>, c: Rgb, r: Rgb) -> bool {
    modest(p, c.s_to_lab::<D65, O2>()) && p.len() > 0 ==> exists|k: int| #[trigger] first_nearest(p, c.s_to_lab::<D65, O2>(), k, p.len() as int) && r == p[k].s_to_rgb()
}
pub open spec fn labs<C: Color>(p: Seq<C>) -> Seq<Lab<D65, O2>> { Seq::new(p.len(), |i: int| p[i].s_to_lab::<D65, O2>()) }
pub proof fn roots(a: real, b: real)
    requires a >= 0real, b >= 0real
    ensures a < b <==> a * a < b * b, a == b <==> a * a == b * b
{
    assert(a < b ==> a * a < b * b) by (nonlinear_arith) requires a >= 0real, b >= 0real;
    assert(b < a ==> b * b < a * a) by (nonlinear_arith) requires a >= 0real, b >= 0real;
}
pub proof fn square(x: real) ensures x * x >= 0real, (0real - x) * (0real - x) == x * x { assert(x * x >= 0real) by (nonlinear_arith); assert((0real - x) * (0real - x) == x * x) by (nonlinear_arith); }
/// the same lightness, a and b
pub open spec fn same_lab(x: Lab<D65, O2>, y: Lab<D65, O2>) -> bool { x.data@[0].r() == y.data@[0].r() && x.data@[1].r() == y.data@[1].r() && x.data@[2].r() == y.data@[2].r() }
/// a pixel that is a palette colour becomes an entry with the Lab coordinates of that colour (the conversions there and back are C13's)
pub proof fn palette_colours_stay(p: Seq<Lab<D65, O2>>, j: int, c: Rgb, r: Rgb)
    requires 0 <= j < p.len(), same_lab(p[j], c.s_to_lab::<D65, O2>()), modest(p, c.s_to_lab::<D65, O2>()), reduced(p, c, r)
    ensures exists|k: int| 0 <= k <= j && same_lab(#[trigger] p[k], c.s_to_lab::<D65, O2>()) && r == p[k].s_to_rgb()
{
    let l = c.s_to_lab::<D65, O2>();
    let k = choose|k: int| #[trigger] first_nearest(p, l, k, p.len() as int) && r == p[k].s_to_rgb();
    assert(d2(l, p[j]) == 0real) by (nonlinear_arith) requires same_lab(p[j], l);
    let (a, b, d) = (l.data@[0].r() - p[k].data@[0].r(), l.data@[1].r() - p[k].data@[1].r(), l.data@[2].r() - p[k].data@[2].r());
    assert(d2(l, p[k]) <= d2(l, p[j]));
    assert(a == 0real && b == 0real && d == 0real) by (nonlinear_arith) requires a * a + b * b + d * d <= 0real;
    assert(d2(l, p[k]) == 0real);
    if k > j { assert(d2(l, p[k]) < d2(l, p[j])); }
}
pub open spec fn sq(a: real) -> real { a * a }
pub proof fn roots_sq()
    ensures forall|a: real, b: real| #![trigger sq(a), sq(b)] a >= 0real && b >= 0real ==> (a < b <==> sq(a) < sq(b))
{ assert forall|a: real, b: real| #![trigger sq(a), sq(b)] a >= 0real && b >= 0real implies (a < b <==> sq(a) < sq(b)) by { roots(a, b); } }
'''


def fns():
    g = [Fn(LA, n, "Lab", ens=["r == self.data@[%d]" % i]) for i, n in enumerate(("l", "a", "b"))]
    de = Fn(AP, "get_delta_e", ens=["r.r() >= 0real", "sq(r.r()) == d2(*@p0, *@p1)"],
            entry="proof { " + "".join("square(@p0.data@[%d].r() - @p1.data@[%d].r()); square(@p1.data@[%d].r() - @p0.data@[%d].r()); " % (i, i, i, i) for i in range(3)) + "}")
    P = "@p0.px()"
    C = "@p1.s_to_lab::<D65, O2>()"
    gc = Fn(AP, "get_color_from_palette", req=["@p0.wf()"], ens=["reduced(@p0.px(), *@p1, r)"], tys=((0, "Option<&Lab<D65, O2>>"),), tags=["for"],
            entry="let ghost g_c = %s; let ghost mut g_k = 0int; proof { roots_sq(); assert(sq(fmax()) == fmax() * fmax()); }" % C,
            loops=[Loop(["_n0 == %s.len()" % P, "0 <= _i0 <= _n0", "@m1.r() >= 0real", "modest(%s, g_c) && _i0 > 0 ==> @m0 is Some && first_nearest(%s, g_c, g_k, _i0 as int) && *(@m0->Some_0) == %s[g_k] && sq(@m1.r()) == d2(g_c, %s[g_k])" % (P, P, P, P),
                         "_i0 == 0 ==> @m1.r() == fmax()"],
                        tail="if _i0 == 0 { g_k = 0; } else if d2(g_c, %s[_i0 as int]) < d2(g_c, %s[g_k]) { g_k = _i0 as int; }" % (P, P),
                        after="if _n0 > 0 && modest(%s, g_c) { assert(first_nearest(%s, g_c, g_k, %s.len() as int)); }" % (P, P, P))])
    return g + [de, gc]


def ops():
    d = ["r.wf()", "r.w() == @p0.w() && r.h() == @p0.h()", "forall|i: int| 0 <= i < r.px().len() ==> #[trigger] reduced(labs(@p1.px()), @p0.px()[i], r.px()[i])"]
    inv = ["_n{0} == g_b.px().len()", "0 <= _i{0} <= _n{0}", "@h.wf()" if False else "true"]
    ent = "let ghost g_b = *@p0; let ghost g_p = labs(@p1.px()); proof { dims_bound(@p0.w(), @p0.h()); }"
    cp = Fn(AP, "apply_palette", req=["@p0.wf()", "@p1.wf()"], ens=d, tags=["collect"], inline=((".map_colors", ((PB, "map_colors", "PixelBuffer"), 0)),), entry=ent,
            loops=[Loop(["_n0 == g_b.px().len()", "0 <= _i0 <= _n0", "_v0@.len() == _i0", "forall|k: int| 0 <= k < _i0 ==> #[trigger] reduced(g_p, g_b.px()[k], _v0@[k])", "g_p =~= @l0.px()"])])
    ip = Fn(AP, "apply_palette_in_place", req=["old(@p0).wf()", "@p1.wf()"], tags=["for"], inline=((".mod_colors", ((PB, "mod_colors", "PixelBuffer"), 0)),),
            ens=["final(@p0).wf()", "final(@p0).w() == old(@p0).w() && final(@p0).h() == old(@p0).h()", "forall|i: int| 0 <= i < old(@p0).px().len() ==> #[trigger] reduced(labs(@p1.px()), old(@p0).px()[i], final(@p0).px()[i])"],
            entry=ent, loops=[Loop(["_n0 == g_b.px().len()", "0 <= _i0 <= _n0", "@p0.w() == g_b.w() && @p0.h() == g_b.h() && @p0.px().len() == g_b.px().len()",
                                    "forall|k: int| 0 <= k < _i0 ==> #[trigger] reduced(g_p, g_b.px()[k], @p0.px()[k])", "forall|k: int| _i0 <= k < _n0 ==> @p0.px()[k] == g_b.px()[k]", "g_p =~= @l0.px()"])])
    return [cp, ip]


def unit():
    yield Unit("c23", lambda: prelude("A") + SPEC_CALLS + PAL, real=True).add(*vcore.getters()).add(vcore.conv_fn("lab")).add(*fns()).add(*ops())
