"""C03: the colour conversions of iterators, over an arbitrary iterator."""
import rast
import vcmd
from weave import Fn, Unit

IT = "d10-core/src/color/iter.rs"
PLAIN = ["Rgb", "Srgb", "Hsl", "Hsv", "Yuv", "Xyz"]
ILL = ["Lab", "Lch"]


def pre():
    t = "use std::marker::PhantomData;\n" + "".join("#[verifier::external_body] pub struct %s { x: u8 }\n" % c for c in PLAIN)
    t += "pub trait Illuminant {}\npub trait Observer {}\n" + "".join("#[verifier::external_body] #[verifier::reject_recursive_types(IL)] #[verifier::reject_recursive_types(O)] pub struct %s<IL, O> { i: PhantomData<IL>, o: PhantomData<O> }\n" % c for c in ILL)
    t += "/// the conversions of a colour space, whatever they give (C11 to C13 say more)\npub trait Color: Sized {\n"
    for c in PLAIN: t += "    spec fn s_%s(self) -> %s; fn to_%s(&self) -> (r: %s) ensures r == self.s_%s();\n" % (c.lower(), c, c.lower(), c, c.lower())
    for c in ILL: t += "    spec fn s_%s<IL: Illuminant, O: Observer>(self) -> %s<IL, O>; fn to_%s<IL: Illuminant, O: Observer>(&self) -> (r: %s<IL, O>) ensures r == self.s_%s::<IL, O>();\n" % (c.lower(), c, c.lower(), c, c.lower())
    t += r'''}
pub open spec fn bounds(h: (usize, Option<usize>), n: nat) -> bool { h.0 <= n && (h.1 is Some ==> n <= h.1->Some_0) }
/// an arbitrary iterator: what it still yields and what it says of its length
#[verifier::external_body] #[verifier::reject_recursive_types(C)] pub struct It<C> { c: PhantomData<C> }
impl<C> It<C> {
    pub uninterp spec fn rest(&self) -> Seq<C>;
    /// bounds of the number of items left
    #[verifier::external_body] pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures bounds(r, self.rest().len()) { unimplemented!() }
}
#[verifier::external_body] pub fn v_next<C>(i: &mut It<C>) -> (r: Option<C>)
    ensures old(i).rest().len() == 0 ==> r is None && final(i).rest() == old(i).rest(), old(i).rest().len() > 0 ==> r == Some(old(i).rest()[0]) && final(i).rest() == old(i).rest().skip(1) { unimplemented!() }
/// one over references; `cloned` yields the same items
#[verifier::external_body] #[verifier::reject_recursive_types(C)] pub struct RIt<C> { c: PhantomData<C> }
impl<C> RIt<C> {
    pub uninterp spec fn rest(&self) -> Seq<C>;
    #[verifier::external_body] pub fn v_cloned(self) -> (r: It<C>) ensures r.rest() == self.rest() { unimplemented!() }
}
'''
    for c in PLAIN + ILL: t += color_impl(c)
    for c in PLAIN: t += generic(vcmd.typeitem(IT, "To%sIter" % c), c)
    for c in ILL: t += generic(vcmd.typeitem(IT, "To%sIter" % c), c)
    return t


def color_impl(c):
    g, a = ("", "") if c in PLAIN else ("<IL: Illuminant, O: Observer>", "<IL, O>")
    b = ""
    for d in PLAIN: b += "    uninterp spec fn s_%s(self) -> %s; #[verifier::external_body] fn to_%s(&self) -> (r: %s) { unimplemented!() }\n" % (d.lower(), d, d.lower(), d)
    for d in ILL: b += "    uninterp spec fn s_%s<IL2: Illuminant, O2: Observer>(self) -> %s<IL2, O2>; #[verifier::external_body] fn to_%s<IL2: Illuminant, O2: Observer>(&self) -> (r: %s<IL2, O2>) { unimplemented!() }\n" % (d.lower(), d, d.lower(), d)
    return "impl%s Color for %s%s {\n%s}\n" % (g, c, a, b)


def generic(t, c):
    """the struct as it is, over the iterator above"""
    g = "<C: Color>" if c in PLAIN else "<C: Color, IL: Illuminant, O: Observer>"
    a = "C" if c in PLAIN else "C, IL, O"
    t = t.replace("struct To%sIter" % c, "struct To%sIter%s" % (c, g)).replace("iter: I,", "iter: It<C>,")
    return "".join("#[verifier::reject_recursive_types(%s)]\n" % x for x in a.split(", ")) + t


def nexts(b):
    def g(n):
        if n.get("k") == "mcall" and n["m"] == "next" and not n["a"]: return rast.call("v_next", rast.ref(n["e"], True))
        return n
    return rast.rewrite(b, g)


def unit():
    u = Unit("c03_iter", pre)
    for c in PLAIN + ILL:
        l = c.lower()
        own, t = "To%sIter" % c, "" if c in PLAIN else "::<IL, O>"
        g, a = ("<C: Color>", "<C>") if c in PLAIN else ("<C: Color, IL: Illuminant, O: Observer>", "<C, IL, O>")
        R = "old(self).iter.rest()"
        u.add(Fn(IT, "next", own, as_name="next_" + l, selfty=(g, own + a), presub=(nexts,), ens=["%s.len() == 0 ==> r is None && final(self).iter.rest() == %s" % (R, R), "%s.len() > 0 ==> r == Some(%s[0].s_%s%s()) && final(self).iter.rest() == %s.skip(1)" % (R, R, l, t, R)]))
        u.add(Fn(IT, "size_hint", own, as_name="size_hint_" + l, selfty=(g, own + a), ens=["bounds(r, self.iter.rest().len())"]))
        gen = [] if c in PLAIN else ["IL: Illuminant", "O: Observer"]
        rt = "%s%s" % (own, a)
        u.add(Fn(IT, "into_" + l, "ColorIter", as_name="into_" + l, selfty=("<C: Color>", "It<C>"), generics=gen, where=[], retty=lambda _, rt=rt: rt, ens=["r.iter == self"]))
        u.add(Fn(IT, "into_" + l, "ColorIterRef", as_name="into_%s_of_refs" % l, selfty=("<C: Color>", "RIt<C>"), generics=gen, where=[], retty=lambda _, rt=rt: rt, ens=["r.iter.rest() == self.rest()"]))
    yield u
