"""C29: the command line program.  What its argument list stands for, under contract from the table of options to `main`."""
import re
import rast
import vcmd
import vfmt
import vpy
from weave import Fn, Loop, Unit, Unsupported

MAIN = "d10-cli/src/main.rs"
Q = vcmd.Q

# option -> kind, arity of numbers, command
OPTIONS = [("silent", 0, "Cmd::Silent"), ("open", 2, "Cmd::Open(o.pb())"), ("save", 2, "Cmd::Save(o.pb())"), ("grayscale", 1, None), ("invert", 0, "Cmd::Invert"), ("gamma", 3, "Cmd::Gamma(a)"),
           ("level", 5, "Cmd::Level { black_point: a, white_point: b, gamma: c }"), ("brightness", 3, "Cmd::Brightness(a)"), ("contrast", 3, "Cmd::Contrast(a)"), ("brightness-contrast", 4, "Cmd::BrightnessContrast { brightness: a, contrast: b }"),
           ("saturation", 3, "Cmd::Saturation(a)"), ("stretch-saturation", 3, "Cmd::StretchSaturation(a)"), ("lightness", 3, "Cmd::Lightness(a)"), ("hue-rotate", 3, "Cmd::HueRotate(a)"), ("rotate", 3, "Cmd::Rotate { radians: a, filter: FilterMode::Bilinear }"),
           ("random-noise", 3, "Cmd::RandomNoise(a)"), ("salt-n-pepper-noise", 3, "Cmd::SaltNPepperNoise(a)"), ("rgb-noise", 3, "Cmd::RgbNoise(a)")]
# kind -> variant of ArgHandler, parameter types of the handler
KINDS = {0: ("None", []), 1: ("String", ["String"]), 2: ("OsString", ["OsString"]), 3: ("Number", ["f32"]), 4: ("Number2", ["f32", "f32"]), 5: ("Number3", ["f32", "f32", "f32"])}
FNTY = re.compile(r"fn\s*\(([^)]*)\)\s*->\s*(?:Result\s*<\s*Cmd\s*,\s*String\s*,?\s*>|Cmd)")


def fn_ty(t):
    """a handler by the handle that stands for it"""
    def g(m):
        ps = [x.strip() for x in m.group(1).split(",") if x.strip()]
        for k, (_, q) in KINDS.items():
            if q == ps and (k == 0) == ("Result" not in m.group(0)): return "H%d" % k
        raise Unsupported("handler type " + m.group(0))
    t = FNTY.sub(g, t)
    t = re.sub(r"&\s*mut\s+impl\s+Iterator\s*<\s*Item\s*=\s*OsString\s*>", "&mut VArgs", t)
    if "fn(" in t.replace(" ", ""): raise Unsupported("handler type " + t)
    return t


def chain(name, params, ret, rows):
    return "pub open spec fn %s(n: Seq<char>%s) -> %s { %s { %s } }\n" % (name, params, ret, "".join('if n == "%s"@ { %s } else ' % z for z in rows), "arbitrary()" if ret == "Cmd" else "None")


HANDLE = r'''
/// a handler of the table: the function the table names, by the option it was given for
#[verifier::external_body] #[derive(Clone, Copy)] pub struct H%(k)d { x: u8 }
impl H%(k)d {
    pub uninterp spec fn name(&self) -> Seq<char>;
    /// what the handlers do is the contract of the closures of the table (handler_of_..), each checked below
    #[verifier::external_body] pub fn call(&self%(ps)s) -> (r: %(ret)s) ensures %(ens)s { unimplemented!() }
}
#[verifier::external_body] pub fn v_h%(k)d(n: &str) -> (r: H%(k)d) ensures r.name() == n@ { unimplemented!() }
'''


def pre():
    t = vpy.BASE + vfmt.STR_EQ + vfmt.EDIT + vcmd.vimg.enums()
    t += r'''
// ---- the standard library
#[verifier::external_body] pub struct OsString { x: u8 }
#[verifier::external_body] pub struct PathBuf { x: u8 }
#[verifier::external_body] pub struct CommandError { x: u8 }
#[verifier::external_body] pub fn v_format() -> (r: String) { unimplemented!() }
impl ParseErr { #[verifier::external_body] pub fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl OsString {
    /// the text of the argument, what is not Unicode replaced
    pub uninterp spec fn lossy(&self) -> Seq<char>;
    /// the path the argument is
    pub uninterp spec fn pb(&self) -> PathBuf;
    #[verifier::external_body] pub fn v_lossy(&self) -> (r: String) ensures r@ == self.lossy() { unimplemented!() }
}
impl VInto<PathBuf> for OsString { open spec fn to(self) -> PathBuf { self.pb() } #[verifier::external_body] fn v_into(self) -> (r: PathBuf) { unimplemented!() } }
/// the arguments not taken yet
#[verifier::external_body] pub struct VArgs { x: u8 }
impl VArgs { pub uninterp spec fn rest(&self) -> Seq<OsString>; }
#[verifier::external_body] pub fn v_iter(v: Vec<OsString>) -> (r: VArgs) ensures r.rest() == v@ { unimplemented!() }
#[verifier::external_body] pub fn v_next(i: &mut VArgs) -> (r: Option<OsString>) ensures old(i).rest().len() == 0 ==> r is None && final(i).rest() == old(i).rest(), old(i).rest().len() > 0 ==> r == Some(old(i).rest()[0]) && final(i).rest() == old(i).rest().skip(1) { unimplemented!() }
pub open spec fn starts(s: Seq<char>, c: char) -> bool { s.len() > 0 && s[0] == c }
#[verifier::external_body] pub fn v_starts(s: &str, c: char) -> (r: bool) ensures r == starts(s@, c) { unimplemented!() }
/// str[n..]: n bytes are n characters where these are ASCII
#[verifier::external_body] pub fn v_tail(s: &str, n: usize) -> (r: &str) requires n <= s@.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s@[i] as u32) < 128u32 ensures r@ == s@.skip(n as int) { unimplemented!() }
#[verifier::external_body] pub fn v_strip(s: &str, c: char) -> (r: Option<&str>) ensures (r is Some) == starts(s@, c), r is Some ==> r->Some_0@ == s@.skip(1) { unimplemented!() }
/// the parts of a text between the occurrences of a character (std documentation)
pub uninterp spec fn parts(s: Seq<char>, c: char) -> Seq<Seq<char>>;
#[verifier::external_body] pub fn v_split(s: &str, c: char) -> (r: Vec<String>) ensures r@.len() == parts(s@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == parts(s@, c)[i] { unimplemented!() }
'''
    t += "#[derive(Clone, Copy)]\n" + vcmd.typeitem("d10-core/src/color/rgb.rs", "Intensity") + vcmd.typeitem(vcmd.CM, "Cmd") + vcmd.typeitem(Q, "Queue") + "use Cmd::*;\n"
    for k, (_, ps) in KINDS.items():
        rows = [(n, c if k == 0 else "Some(%s)" % c if c else "match parsed::<Intensity>(s) { Some(i) => Some(Cmd::ToGray(i)), None => None }") for n, kk, c in OPTIONS if kk == k]
        sp = {0: "", 1: ", s: Seq<char>", 2: ", o: OsString", 3: ", a: f32", 4: ", a: f32, b: f32", 5: ", a: f32, b: f32, c: f32"}[k]
        t += chain("out%d" % k, sp, "Cmd" if k == 0 else "Option<Cmd>", rows)
        a = "" if k == 0 else ", p0@" if k == 1 else "".join(", p%d" % i for i in range(len(ps)))
        o = "out%d(self.name()%s)" % (k, a)
        t += HANDLE % dict(k=k, ps="".join(", p%d: %s" % z for z in enumerate(ps)), ret="Cmd" if k == 0 else "Result<Cmd, String>", ens="r == " + o if k == 0 else "(r is Ok) == (%s is Some), r is Ok ==> Some(r->Ok_0) == %s" % (o, o))
    t += "#[derive(Clone, Copy)]\n" + fn_ty(vcmd.typeitem(MAIN, "ArgHandler")) + vcmd.typeitem(MAIN, "Arg") + vcmd.typeitem(MAIN, "Args")
    t += "/// the kind of parameters of a handler, and which one it is\npub open spec fn hk(h: ArgHandler) -> (int, Seq<char>) { match h { %s } }\n" % ", ".join("ArgHandler::%s(h) => (%dint, h.name())" % (v, k) for k, (v, _) in KINDS.items())
    t += "/// the options of the program\npub open spec fn table(n: Seq<char>) -> Option<(int, Seq<char>)> { %s { None } }\n" % "".join('if n == "%s"@ { Some((%dint, n)) } else ' % (n, k) for n, k, _ in OPTIONS)
    num = lambda i: "parsed::<f32>(parts(r0(rest), ',')[%d])" % i
    t += r'''
/// the first row of the table with this name
pub open spec fn lookup(a: Seq<Arg>, n: Seq<char>) -> Option<(int, Seq<char>)> decreases a.len() {
    if a.len() == 0 { None } else { match lookup(a.drop_last(), n) { Some(x) => Some(x), None => if a.last().name@ == n { Some(hk(a.last().handler)) } else { None } } }
}
pub proof fn lookup_push(a: Seq<Arg>, x: Arg, n: Seq<char>) ensures lookup(a.push(x), n) == (match lookup(a, n) { Some(y) => Some(y), None => if x.name@ == n { Some(hk(x.handler)) } else { None } }) { assert(a.push(x).drop_last() =~= a); }
/// the rows before the first hit do not matter, nor do those after it
pub proof fn lookup_prefix(a: Seq<Arg>, i: int, n: Seq<char>) requires 0 <= i <= a.len(), lookup(a.take(i), n) is Some ensures lookup(a, n) == lookup(a.take(i), n) decreases a.len() - i {
    if i < a.len() { assert(a.take(i + 1).drop_last() =~= a.take(i)); lookup_prefix(a, i + 1, n); } else { assert(a.take(i) =~= a); }
}
pub open spec fn r0(rest: Seq<OsString>) -> Seq<char> { rest[0].lossy() }
/// the command of a row of the table, with the arguments that follow it
pub open spec fn command(h: (int, Seq<char>), rest: Seq<OsString>) -> Option<Cmd> {
    if h.0 == 0 { Some(out0(h.1)) }
    else if rest.len() == 0 { None }
    else if h.0 == 1 { out1(h.1, r0(rest)) }
    else if h.0 == 2 { out2(h.1, rest[0]) }
    else if h.0 == 3 { match parsed::<f32>(r0(rest)) { Some(a) => out3(h.1, a), None => None } }
    else if h.0 == 4 { if parts(r0(rest), ',').len() == 2 { match (%s, %s) { (Some(a), Some(b)) => out4(h.1, a, b), _ => None } } else { None } }
    else { if parts(r0(rest), ',').len() == 3 { match (%s, %s, %s) { (Some(a), Some(b), Some(c)) => out5(h.1, a, b, c), _ => None } } else { None } }
}
pub open spec fn after(h: (int, Seq<char>), rest: Seq<OsString>) -> Seq<OsString> { if h.0 == 0 { rest } else { rest.skip(1) } }
/// the commands the arguments stand for, after those found before; none where the arguments are refused
pub open spec fn meaning(t: Seq<Arg>, rest: Seq<OsString>, done: Seq<Cmd>) -> Option<Seq<Cmd>> decreases rest.len() {
    if rest.len() == 0 { Some(done) }
    else if starts(r0(rest), '-') {
        match lookup(t, r0(rest).skip(1)) { None => None, Some(h) => match command(h, rest.skip(1)) { None => None, Some(c) => meaning(t, after(h, rest.skip(1)), done.push(c)) } }
    }
    else if done.len() == 0 { meaning(t, rest.skip(1), done.push(Cmd::Open(rest[0].pb()))) }
    else { meaning(t, rest.skip(1), done.push(Cmd::Save(rest[0].pb()))) }
}
/// the same for the options of the program
pub open spec fn stands_for(rest: Seq<OsString>, done: Seq<Cmd>) -> Option<Seq<Cmd>> decreases rest.len() {
    if rest.len() == 0 { Some(done) }
    else if starts(r0(rest), '-') {
        match table(r0(rest).skip(1)) { None => None, Some(h) => match command(h, rest.skip(1)) { None => None, Some(c) => stands_for(after(h, rest.skip(1)), done.push(c)) } }
    }
    else if done.len() == 0 { stands_for(rest.skip(1), done.push(Cmd::Open(rest[0].pb()))) }
    else { stands_for(rest.skip(1), done.push(Cmd::Save(rest[0].pb()))) }
}
pub proof fn same_meaning(t: Seq<Arg>, rest: Seq<OsString>, done: Seq<Cmd>) requires forall|n: Seq<char>| #[trigger] lookup(t, n) == table(n) ensures meaning(t, rest, done) == stands_for(rest, done) decreases rest.len() {
    if rest.len() > 0 {
        if starts(r0(rest), '-') {
            let n = r0(rest).skip(1);
            assert(lookup(t, n) == table(n));
            if let Some(h) = table(n) { if let Some(c) = command(h, rest.skip(1)) { same_meaning(t, after(h, rest.skip(1)), done.push(c)); } }
        } else if done.len() == 0 { same_meaning(t, rest.skip(1), done.push(Cmd::Open(rest[0].pb()))); } else { same_meaning(t, rest.skip(1), done.push(Cmd::Save(rest[0].pb()))); }
    }
}
// ---- the process
pub uninterp spec fn argv() -> Seq<OsString>;
#[verifier::external_body] pub fn v_args() -> (r: Vec<OsString>) ensures r@ == argv() { unimplemented!() }
/// what the process did: the commands run and whether all of them succeeded, whether a message was printed, the status it left with
#[verifier::external_body] pub struct Process { x: u8 }
impl Process {
    pub uninterp spec fn ran(&self) -> Option<(Seq<Cmd>, bool)>;
    pub uninterp spec fn said(&self) -> bool;
    pub uninterp spec fn left(&self) -> Option<int>;
}
#[verifier::external_body] pub fn v_say(w: &mut Process) ensures final(w).said(), final(w).ran() == old(w).ran(), final(w).left() == old(w).left() { unimplemented!() }
/// the process ends here
#[verifier::external_body] pub fn v_exit(c: i32, w: &mut Process) ensures final(w).said() == old(w).said(), final(w).ran() == old(w).ran(), final(w).left() == Some(c as int) { unimplemented!() }
impl Queue {
    /// what running means is C23: Queue::run is under contract there
    #[verifier::external_body] pub fn v_run(&self, w: &mut Process) -> (r: Result<(), CommandError>) ensures final(w).ran() == Some((self.commands@, r is Ok)), final(w).said() == old(w).said(), final(w).left() == old(w).left() { unimplemented!() }
}
''' % tuple(num(i) for i in (0, 1, 0, 1, 2))
    return t + vfmt.distinct([n for n, _, _ in OPTIONS])


VARIANTS = {v for v, _ in KINDS.values()}


def is_char(e):
    return rast.strip(e).get("k") == "lit" and rast.strip(e).get("ty") == "char"


def texts(b):
    """the operations of the standard library on texts and arguments, by the names the preamble gives them"""
    hs = set()
    for n in rast.walk(b):
        if n.get("k") == "tstruct" and n["p"].split("::")[-1] in VARIANTS:
            hs |= {x["n"] for x in n["e"] if x.get("k") == "id"}
    own = any(n.get("k") == "item" and re.match(r"use\s+(?:\w+::)*ArgHandler\s*::\s*(?:\*|\{)", n.get("t", "").strip()) for n in rast.walk(b))

    def split_of(e):
        """X.split(c) or X.split(c).map(to_owned)"""
        e = rast.strip(e)
        if e["k"] == "call" and e["f"].get("p") == "v_split": return e
        if e["k"] == "mcall" and e["m"] == "map" and len(e["a"]) == 1 and split_of(e["e"]) is not None:
            f = rast.strip(e["a"][0])
            if f["k"] == "path" and f["p"] in ("str::to_owned", "str::to_string", "String::from", "ToString::to_string", "ToOwned::to_owned"): return split_of(e["e"])
            if f["k"] == "closure" and len(f["p"]) == 1 and f["p"][0]["k"] == "id":
                x = rast.strip(f["b"])
                v = rast.path(f["p"][0]["n"])["p"]
                if x["k"] == "mcall" and x["m"] in ("to_owned", "to_string", "into", "v_into") and not x["a"] and rast.strip(x["e"]).get("p") == v: return split_of(e["e"])
                if x["k"] == "call" and x["f"].get("p") == "String::from" and rast.strip(x["a"][0]).get("p") == v: return split_of(e["e"])
        return None

    def g(n):
        k = n.get("k")
        if k == "block" and own: return dict(n, st=[s for s in n["st"] if not (s["k"] == "item" and "ArgHandler" in s.get("t", ""))])
        if k == "tstruct" and own and n["p"] in VARIANTS: return dict(n, p="ArgHandler::" + n["p"])
        if k == "call" and n["f"].get("k") == "path" and n["f"]["p"] in hs: return rast.mcall(n["f"], "call", *n["a"])
        if k == "call" and n["f"].get("k") == "path" and n["f"]["p"].endswith("env::args_os") and not n["a"]: return rast.call("v_args")
        if k == "mcall":
            m = n["m"]
            if m == "into_iter" and rast.strip(n["e"])["k"] == "path" and not n["a"]: return rast.call("v_iter", n["e"])
            if m == "next" and not n["a"] and rast.strip(n["e"])["k"] == "path": return rast.call("v_next", rast.ref(n["e"], True))
            if m == "to_string_lossy": return dict(n, m="v_lossy")
            if m == "into_owned" and rast.strip(n["e"]).get("m") == "v_lossy": return n["e"]
            if m in ("to_string", "v_to_string") and rast.strip(n["e"]).get("m") == "v_lossy": return n["e"]
            if m == "starts_with" and len(n["a"]) == 1 and is_char(n["a"][0]): return rast.call("v_starts", rast.ref(n["e"]), n["a"][0])
            if m == "strip_prefix" and len(n["a"]) == 1 and is_char(n["a"][0]): return rast.call("v_strip", rast.ref(n["e"]), n["a"][0])
            if m in ("eq", "ne") and len(n["a"]) == 1: return texteq("==" if m == "eq" else "!=", n["e"], n["a"][0])
            if m == "into" and not n["a"]: return dict(n, m="v_into")
            if m == "parse" and not n["a"]: return dict(n, m="v_parse")
            if m == "split" and len(n["a"]) == 1 and is_char(n["a"][0]): return rast.call("v_split", rast.ref(n["e"]), n["a"][0])
            if m == "collect" and not n["a"]:
                if split_of(n["e"]) is not None: return split_of(n["e"])
                if rast.strip(n["e"]).get("k") == "call" and rast.strip(n["e"])["f"].get("p") == "v_args": return n["e"]
        if k == "bin" and n["op"] in ("==", "!=") and any(rast.strip(n[s]).get("k") == "field" and rast.strip(n[s])["n"] == "name" for s in "lr"): return texteq(n["op"], n["l"], n["r"])
        if k == "index" and rast.strip(n["i"])["k"] == "range" and rast.strip(n["i"])["r"] is None and rast.strip(n["i"])["l"] is not None: return rast.call("v_tail", rast.ref(n["e"]), rast.strip(n["i"])["l"])
        if k == "ref" and not n["mut"] and n["e"].get("k") == "call" and n["e"]["f"].get("p") == "v_tail": return n["e"]
        if k == "while" and rast.strip(n["c"])["k"] == "letc":
            c = rast.strip(n["c"])
            return {"k": "loop", "label": n.get("label"), "b": rast.block([rast.st({"k": "match", "e": c["e"], "arms": [{"k": "arm", "p": c["p"], "g": None, "b": {"k": "blocke", "b": n["b"], "label": None}},
                    {"k": "arm", "p": {"k": "wild"}, "g": None, "b": {"k": "break", "label": None, "e": None}}]}, False)])}
        return n

    def texteq(op, l, r):
        q = rast.call("str_eq", l, r)
        return q if op == "==" else {"k": "un", "op": "!", "e": q}
    return rast.rewrite(b, g)


def ptr_next(name):
    """`iter` is already a reference in this function"""
    def go(b):
        def g(n):
            if n.get("k") == "call" and n["f"].get("p") == "v_next" and n["a"][0].get("k") == "ref" and rast.strip(n["a"][0]["e"]).get("p") == name: return dict(n, a=[rast.path(name)])
            return n
        return rast.rewrite(b, g)
    return go


def process(b):
    """the process is threaded through what it does; it ends where it exits"""
    def g(n):
        if n.get("k") == "macro" and n["n"] == "eprintln": return rast.call("v_say", rast.path("w"))
        if n.get("k") == "call" and n["f"].get("p") in ("exit", "process::exit", "std::process::exit"): return {"k": "return", "e": rast.call("v_exit", n["a"][0], rast.path("w"))}
        if n.get("k") == "mcall" and n["m"] == "run" and not n["a"]: return dict(n, m="v_run", a=[rast.path("w")])
        return n
    return rast.rewrite(b, g)


def rows():
    """the rows of the table in create_args, with their handlers"""
    f = rast.find(MAIN, "create_args")
    out = []
    for n in rast.walk(f["body"]):
        if n.get("k") == "mcall" and len(n["a"]) == 2 and rast.strip(n["a"][1])["k"] in ("closure", "path") and rast.strip(n["a"][0]).get("k") == "lit":
            ty = rast.find(MAIN, n["m"], "Args")["params"][2]["ty"]
            out.append((n["m"], rast.strip(n["a"][0])["t"].strip('"'), int(fn_ty(ty)[1:]), rast.strip(n["a"][1])))
    return out


def handles(b):
    kinds = {m: k for m, _, k, _ in rows()}

    def g(n):
        if n.get("k") == "mcall" and n["m"] in kinds and len(n["a"]) == 2: return dict(n, a=[n["a"][0], rast.call("v_h%d" % kinds[n["m"]], n["a"][0])])
        return n
    return rast.rewrite(b, g)


def handler(i, name, k, c):
    ps = KINDS[k][1]
    if c["k"] == "path":
        raise Unsupported("handler by name")
    if len(c["p"]) != len(ps) or any(p["k"] != "id" for p in c["p"]): raise Unsupported("handler parameters")
    body = rast.ue(c["b"])
    hn = "handler_of_%s" % re.sub(r"\W", "_", name) + ("" if i == 0 else "_%d" % i)
    src = "fn %s(%s) -> %s { %s }" % (hn, ", ".join("%s: %s" % (p["n"], t) for p, t in zip(c["p"], ps)), "Cmd" if k == 0 else "Result<Cmd, String>", body)
    a = "" if k == 0 else ", @p0@" if k == 1 else "".join(", @p%d" % j for j in range(len(ps)))
    o = 'out%d("%s"@%s)' % (k, name, a)
    return Fn(None, hn, src=src, ens=["r == " + o] if k == 0 else ["(r is Ok) == (%s is Some)" % o, "r is Ok ==> Some(r->Ok_0) == " + o], presub=(texts, vfmt.edits), entry="proof { names_differ(); }")


def unit():
    u = Unit("c29_cli", pre)
    D = "proof { names_differ(); }"
    T = dict(presub=(texts, vfmt.edits), parmty=fn_ty)
    u.add(Fn(Q, "new", "Queue", ens=["r.commands@ =~= Seq::<Cmd>::empty()"]), Fn(Q, "is_empty", "Queue", ens=["r == (self.commands@.len() == 0)"]), Fn(Q, "len", "Queue", ens=["r == self.commands@.len()"]), Fn(Q, "push", "Queue", ens=["final(self).commands@ == old(self).commands@.push(@p1)"]))
    u.add(Fn(MAIN, "parse_intensity", ens=["(r is Ok) == (parsed::<Intensity>(@p0@) is Some)", "r is Ok ==> Some(r->Ok_0) == parsed::<Intensity>(@p0@)"], **T))
    seen = []
    for _, name, k, c in rows():
        u.add(handler(seen.count(name), name, k, c))
        seen.append(name)
    u.add(Fn(MAIN, "new", "Args", ens=["r.args@.len() == 0"], **T))
    for f in rast.load(MAIN):
        if f["k"] == "fnitem" and f["owner"] == "Args" and len(f["params"]) == 3 and "fn" in f["params"][2].get("ty", "") and "Arg" in (f["ret"] or "Self").replace("Self", "Arg"):
            k = int(fn_ty(f["params"][2]["ty"])[1:])
            u.add(Fn(MAIN, f["name"], "Args", ens=["forall|n: Seq<char>| #[trigger] lookup(r.args@, n) == (match lookup(self.args@, n) { Some(x) => Some(x), None => if @p1@ == n { Some((%dint, @p2.name())) } else { None } })" % k],
                     entry="proof { assert forall|x: Arg, n: Seq<char>| #[trigger] lookup(self.args@.push(x), n) == (match lookup(self.args@, n) { Some(y) => Some(y), None => if x.name@ == n { Some(hk(x.handler)) } else { None } }) by { lookup_push(self.args@, x, n); } }", **T))
    u.add(Fn(MAIN, "create_args", ens=["forall|n: Seq<char>| #[trigger] lookup(r.args@, n) == table(n)"], entry=D, presub=(texts, vfmt.edits, handles)))
    c = "command(hk(@p1.handler), old(@p2).rest())"
    u.add(Fn(MAIN, "parse_arg", "Args", ens=["(r is Ok) == (%s is Some)" % c, "r is Ok ==> Some(r->Ok_0) == %s && final(@p2).rest() == after(hk(@p1.handler), old(@p2).rest())" % c], parmty=fn_ty, presub=(texts, vfmt.edits, ptr_next("iter"))))
    d1 = "(if @p1@.len() == 0 { @p1@ } else { @p1@.skip(1) })"
    u.add(Fn(MAIN, "parse", "Args", ens=["(r is Ok) == (meaning(self.args@, %s, seq![]) is Some)" % d1, "r is Ok ==> Some(r->Ok_0.commands@) == meaning(self.args@, %s, seq![])" % d1], tags=["find", "loop"], entry="let ghost g_a = %s; assert(g_a =~= g_a.skip(0));" % d1,
             loops=[Loop(["_n0 == self.args@.len()", "0 <= _i0 <= _n0", "_b0 is None ==> lookup(self.args@.take(_i0 as int), g_n) is None", "_b0 is Some ==> lookup(self.args@, g_n) == Some(hk(_b0->Some_0.handler))"],
                         head="assert(self.args@.take(_i0 + 1).drop_last() =~= self.args@.take(_i0 as int)); if lookup(self.args@.take(_i0 + 1), g_n) is Some { lookup_prefix(self.args@, _i0 + 1, g_n); }", after="assert(self.args@.take(self.args@.len() as int) =~= self.args@);", ty="&Arg"),
                    Loop(["meaning(self.args@, g_a, seq![]) == meaning(self.args@, @m1.rest(), @m0.commands@)"], ghost="let ghost g_n = r0(@m1.rest()).skip(1);", brk=["@m1.rest().len() == 0"], dec="@m1.rest().len()")], **T))
    SF, F1 = "stands_for(argv().skip(1), seq![])", "final(w).left() == Some(1int) && final(w).said()"
    LINK = "assert forall|t: Seq<Arg>| (forall|n: Seq<char>| #[trigger] lookup(t, n) == table(n)) implies #[trigger] meaning(t, argv().skip(1), seq![]) == stands_for(argv().skip(1), seq![]) by { same_meaning(t, argv().skip(1), seq![]); }"
    u.add(Fn(MAIN, "main", as_name="program", extra=["w: &mut Process"], req=["old(w).left() is None && old(w).ran() is None"], entry="proof { %s }" % LINK,
             ens=["argv().len() == 1 ==> %s && final(w).ran() is None" % F1, "argv().len() > 1 && %s is None ==> %s && final(w).ran() is None" % (SF, F1),
                  "argv().len() > 1 && %s is Some ==> final(w).ran() is Some && final(w).ran()->Some_0.0 == %s->Some_0 && (if final(w).ran()->Some_0.1 { final(w).left() is None } else { %s })" % (SF, SF, F1)], presub=(texts, vfmt.edits, process)))
    yield u
