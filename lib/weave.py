"""Weaves contracts into functions regenerated from /repo's syntax tree and runs Verus on the result."""
import copy, json, os, re, subprocess, time
import native, rast
from rast import Unsupported

OUT = os.path.join(native.BUILD, "verus")


class Loop:
    def __init__(self, inv, head="", tail="", dec=None, after="", ty=None, ghost="", brk=None):
        # brk: what holds where a `loop` is left
        self.brk = brk
        self.ghost = ghost
        self.ty = ty
        self.inv, self.head, self.tail, self.dec, self.after = inv, head, tail, dec, after


class Fn:
    """Contract of one function.  @p0.. = parameter names, @asg = vector assigned by index, @tags checked against the loops found."""
    def __init__(self, file, name, owner="", req=(), ens=(), entry="", loops=(), exit="", ret="r", trait=None, impl=None, tags=None, src=None,
                 resolve=(), inline=(), adaptors=(), external=False, subst=(), rlimit=None, selfty=None, spinoff=False, known=(), post=None, drop_ret=False, as_name=None, closures=(), generics=None, where=None, pure=False, floaty=(), fpclos=(), extra=(), tys=(), nested=None, consts=(), rescalls=(), signed=False, clo=None, ctys=(), cret=None, lift=(), presub=(), retty=None, parmty=None):
        self.__dict__.update(locals())


def fmkey(args):
    return "".join("s" if a.strip().replace(" ", "").startswith("&[") and ";" not in a else "r" if a.strip().startswith("&") else "v" for a in args)


def split_top(s):
    out, d, cur = [], 0, ""
    prev = ""
    for c in s:
        if c in "(<[{": d += 1
        elif c in ")]}" or (c == ">" and prev != "-"): d -= 1
        if c == "," and d == 0:
            out.append(cur); cur = ""
        else:
            cur += c
        prev = c
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out]


FN_BOUND = re.compile(r"^(\w+)\s*:\s*(Fn|FnMut|FnOnce)\s*\((.*)\)\s*(?:->\s*(.*))?$", re.S)


def callee(f, ens=None):
    """the contract of f (or part of its guarantees) for a unit that calls it; the unit that proves f discharges it"""
    import copy as cp
    r = cp.copy(f)
    if ens is not None and any(e not in f.ens for e in ens): raise Unsupported("contract of " + f.name)
    r.external, r.ens, r.loops, r.tags = True, list(f.ens if ens is None else ens), [], None
    return r


class Unit:
    def __init__(self, name, prelude, real=False):
        self.name, self.prelude, self.fns, self.real = name, prelude, [], real

    def add(self, *f):
        self.fns += f
        return self


def emit_fn(c, fmkeys, info, vac=0, real=False, hard=0):
    import vreal
    """-> (impl header or '', text)"""
    if c.src is not None:
        f = parse_src(c.src, c.name)
    else:
        f = rast.find(c.file, c.name, c.owner, c.trait, c.impl)
    f = lift_nested(f, c)
    if c.retty: f["ret"] = c.retty(f["ret"])
    if c.parmty:
        for p in f["params"]:
            if not p["self"]: p["ty"] = c.parmty(p["ty"])
    if c.clo is not None: f = clo_fn(f, c)
    if c.lift: f = clo_lift(f, c)
    gens = split_top(f["generics"][1:-1]) if f["generics"] else []
    wh = split_top(f["where"].strip()[5:]) if f["where"] else []
    if c.generics is not None: gens = list(c.generics)
    if c.where is not None: wh = list(c.where)
    fm = {}
    for lst in (gens, wh):
        for i, g in enumerate(lst):
            m = FN_BOUND.match(g.strip())
            if m:
                args = split_top(m.group(3))
                key = fmkey(args)
                pure = c.pure == "all" or (c.pure and m.group(2) == "Fn")
                kind = "R" if c.pure == "rel" and pure else "P" if pure else "M"
                fmkeys.add(kind + key)
                tys = [a.strip().lstrip("& ").strip()[1:-1] if k == "s" else a.lstrip("& ").strip() if a.strip().startswith("&") else a for a, k in zip(args, key)]
                fm[m.group(1)] = kind
                lst[i] = "%s: F%s%s<%s>" % (m.group(1), kind, key, ", ".join(tys + [m.group(4) or "()"]))
    # generic names first declared bare in <..> and bounded in where
    params, fmp, names = [], {}, []
    for p in f["params"]:
        if p["self"]:
            t_ = p["t"].strip()
            if re.match(r"^mut\s+self\b", t_):
                # an owned `mut self` is a local that starts as self
                t_ = "self"
                f["body"] = rast.rewrite(f["body"], lambda n: dict(n, p="self_") if n.get("k") == "path" and n["p"] == "self" else n)
                f["body"]["st"].insert(0, rast.let("self_", rast.path("self"), True))
            params.append(t_)
            names.append("self")
            continue
        pat = p["p"]
        if pat["k"] != "id":
            raise Unsupported("parameter pattern")
        names.append(pat["n"])
        ty = p["ty"].strip()
        if ty in fm:
            fmp[pat["n"]] = True
            params.append("%s: &%s%s" % (pat["n"], "mut " if fm[ty] == "M" else "", ty))
        else:
            params.append(("mut " if pat["mut"] else "") + pat["n"] + ": " + ty)
    if c.external:
        # a callee known by its contract, which another unit proves
        if real:
            params, gens, wh = [vreal.ty_sub(x) for x in params], [vreal.ty_sub(x) for x in gens], [vreal.ty_sub(x) for x in wh]
            f["ret"] = vreal.ty_sub(f["ret"]) if f["ret"] else f["ret"]

        def ext(t):
            for i in reversed(range(len(names))): t = t.replace("@p%d" % i, names[i])
            if "@" in re.sub(r"@(?=[\s.\[;,)]|$)", "", t): raise Unsupported("contract of a callee")
            return vreal.ty_sub(t) if real else t
        cl = "".join("\n    %s\n%s" % (k, "".join("        %s,\n" % ext(x) for x in l)) for k, l in (("requires", c.req), ("ensures", c.ens)) if l)
        return f["impl"] if f["owner"] else "", "    // callee contract\n    #[verifier::external_body]\n    pub fn %s%s(%s)%s%s%s { unimplemented!() }" % (
            c.as_name or f["name"], "<" + ", ".join(gens) + ">" if gens else "", ", ".join(params), " -> (%s: %s)" % (c.ret, f["ret"].strip()) if f["ret"] else "", "\n    where " + ", ".join(wh) if wh else "", cl)
    ptys = {n: p["ty"].strip() for n, p in zip(names, f["params"]) if not p["self"]}
    params += list(c.extra)
    low = rast.Lower(fm=fmp,
                     resolve={k: rast.find(*v) for k, v in c.resolve} if c.resolve else {},
                     inline={k: (rast.find(*v[0]), *v[1:]) for k, v in c.inline} if c.inline else {},
                     adaptors={k: v() for k, v in c.adaptors} if c.adaptors else {})
    low.results |= set(c.rescalls)
    low.opt = (f["ret"] or "").replace(" ", "").startswith(("Option<", "std::option::Option<"))
    f["body"] = unqualify(f["body"])
    for s_ in c.presub: f["body"] = s_(f["body"])
    if c.consts:
        f["body"] = rast.rewrite(f["body"], lambda n: const_path(n, c.consts))
    muts = [n["p"]["n"] for n in rast.walk(f["body"]) if n.get("k") == "let" and n["p"].get("k") == "id" and n["p"]["mut"]]
    lets = [n["p"]["n"] for n in rast.walk(f["body"]) if n.get("k") == "let" and n["p"].get("k") == "id" and not n["p"]["mut"]]
    for q_ in muts:
        if muts.count(q_) > 1: muts = [x for x in muts if x != q_]
    for i_, t_ in c.tys:
        # a type annotation inference would find by itself
        if i_ >= len(muts): raise Unsupported("mutable locals")
        f["body"] = rast.rewrite(f["body"], lambda n: dict(n, ty=t_) if n.get("k") == "let" and n["p"].get("k") == "id" and n["p"]["n"] == muts[i_] and n["ty"] is None else n)
    # parameters that are passed on to a callable-taking library function stay `&mut`
    body = low.block(f["body"])
    loops = sorted(low.loops, key=lambda w: w["loop"])
    tags = [w["tag"] for w in loops]
    info["tags"] = tags
    if c.tags is not None and list(c.tags) != tags:
        raise Unsupported("loops of %s are %s, the contract was written for %s" % (c.name, tags, list(c.tags)))
    if len(loops) != len(c.loops):
        raise Unsupported("%s has %d loops %s, the contract annotates %d" % (c.name, len(loops), tags, len(c.loops)))
    if any(t == "loop" and l.brk is None for t, l in zip(tags, c.loops)):
        raise Unsupported("loop without condition")
    if real:
        body = vreal.reals(body, set(c.floaty) | {n for n, t in ptys.items() if t in ("f32", "f64")}, c.signed)
        loops = sorted([n for n in rast.walk(body) if n.get("k") == "while" and "loop" in n], key=lambda w: w["loop"])
        params = [vreal.ty_sub(x) for x in params]
        gens, wh = [vreal.ty_sub(x) for x in gens], [vreal.ty_sub(x) for x in wh]
        f["ret"] = vreal.ty_sub(f["ret"]) if f["ret"] else f["ret"]
    asg = None
    for n in rast.walk(body):
        if n.get("k") == "assign" and n["l"].get("k") == "index" and rast.strip(n["l"]["e"])["k"] == "path":
            asg = rast.strip(n["l"]["e"])["p"]
    if asg is None:
        for n in rast.walk(body):
            b = n["e"] if n.get("k") == "ref" and n["mut"] else n["e"] if n.get("k") == "mcall" and n["m"] == "copy_from_slice" else n["l"] if n.get("k") == "assign" else None
            d = 0
            while b is not None and b.get("k") in ("index", "paren"):
                d += b["k"] == "index"
                b = b["e"]
            if b is not None and d and b.get("k") == "path": asg = b["p"]
    push = None
    for n in rast.walk(body):
        if n.get("k") == "mcall" and n["m"] in ("push", "extend_from_slice", "v_extend_from_slice", "extend") and rast.strip(n["e"])["k"] == "path":
            push = rast.strip(n["e"])["p"]

    def hloc(g, i):
        if i >= len(low.hmuts.get(g, [])): raise Unsupported("locals of " + g)
        return low.hmuts[g][i]

    def sub(t):
        for i in reversed(range(len(names))):
            t = t.replace("@p%d" % i, names[i])
        for i in reversed(range(len(muts))):
            t = t.replace("@m%d" % i, muts[i])
        for i in reversed(range(len(lets))):
            t = t.replace("@l%d" % i, lets[i])
        t = re.sub(r"@h_(\w+?)_(\d+)", lambda m: hloc(m.group(1), int(m.group(2))), t)
        if re.search(r"@[ml]\d", t): raise Unsupported("mutable locals")
        if "@asg" in t:
            if asg is None: raise Unsupported("no indexed assignment found")
            t = t.replace("@asg", asg)
        if "@push" in t:
            if push is None: raise Unsupported("no pushed vector found")
            t = t.replace("@push", push)
        if real: t = vreal.ty_sub(t)
        return t
    fp = list(c.fpclos)

    def mkclo(n):
        if n.get("k") == "closure" and fp:
            key, targs, spec, pre = fp.pop(0)
            names2 = [p_["n"] for p_ in n["p"] if p_.get("k") == "id"]
            if len(names2) != len(n["p"]) or len(names2) != len(key): raise Unsupported("closure parameters")
            free = {x["p"].split("::")[0] for x in rast.walk(n["b"]) if x.get("k") == "path"} - set(names2)
            caps = sorted(x for x in free if x in ptys)
            if "self" in free or any("&" in ptys[x] for x in caps): raise Unsupported("closure captures a reference")
            cty = {x: vreal.ty_sub(ptys[x]) if real else ptys[x] for x in caps}
            nm = "Clo%d%s" % (len(info.setdefault("clos", [])), c.as_name or c.name)
            fmkeys.add("P" + key)
            ss = lambda t: re.sub(r"@c(\d)", lambda m: names2[int(m.group(1))], re.sub(r"@p(\d)", lambda m: "self." + names[int(m.group(1))], t))
            info["clos"].append("pub struct %s { pub u: u8%s }\nimpl FP%s<%s> for %s {\n    open spec fn f(&self, %s) -> %s { %s }\n    open spec fn pre(&self, %s) -> bool { %s }\n    fn call(&self, %s) -> (r: %s) { %s%s }\n}\n" % (
                nm, "".join(", pub %s: %s" % (x, cty[x]) for x in caps), key, ", ".join(targs), nm, ", ".join("%s: %s" % z for z in zip(names2, targs)), targs[-1], ss(spec), ", ".join("%s: %s" % z for z in zip(names2, targs)), ss(pre),
                ", ".join("%s: %s%s" % (a, "&" if k_ == "r" else "", t) for a, t, k_ in zip(names2, targs, key)), targs[-1], "".join("let %s = self.%s; " % (x, x) for x in caps), rast.ue(n["b"])))
            return {"k": "rawe", "t": "(&%s { u: 0%s })" % (nm, "".join(", %s: %s" % (x, x) for x in caps))}
        return n
    if fp:
        body = rast.rewrite(body, mkclo)
        loops = sorted([n for n in rast.walk(body) if n.get("k") == "while" and "loop" in n], key=lambda w: w["loop"])
    if fp: raise Unsupported("closure not found")
    clos = [n for n in rast.walk(body) if n.get("k") == "closure"]
    if len(clos) != len(c.closures):
        raise Unsupported("%s has %d closures left, the contract annotates %d" % (c.name, len(clos), len(c.closures)))
    for n, s in zip(clos, c.closures):
        if n["b"]["k"] != "blocke": n["b"] = n["b"]
        n["spec"] = sub(s)
    for w, l in zip(loops, c.loops):
        k = w["loop"]
        dec = l.dec or ("_n%d - _i%d" % (k, k))
        w["inv"] = "        invariant\n" + "".join("            %s,\n" % sub(i) for i in l.inv) + ("        ensures\n" + "".join("            %s,\n" % sub(i) for i in l.brk) if l.brk else "") + "        decreases " + sub(dec)
        if l.ty:
            for n in rast.walk(body):
                if n.get("k") == "let" and n["p"].get("n") == "_v%d" % k and n["ty"] is None: n["ty"] = "Vec<%s>" % l.ty
                if n.get("k") == "let" and n["p"].get("n") == "_b%d" % k and n["ty"] is None and w["tag"] == "find": n["ty"] = "Option<%s>" % l.ty
        if l.head: w["b"]["st"].insert(0, rast.raw("        proof { " + sub(l.head) + " }"))
        if l.ghost: w["b"]["st"].insert(0, rast.raw("        " + sub(l.ghost)))
        if l.tail: w["b"]["st"].insert(len(w["b"]["st"]) - 1, rast.raw("        proof { " + sub(l.tail) + " }"))
    for n in rast.walk(body):
        # a loop followed by a block would take the block for its body
        if n.get("k") == "block":
            for x, y in zip(n["st"], n["st"][1:]):
                if x["k"] == "expr" and x["e"].get("k") == "while" and y["k"] == "expr" and y["e"].get("k") == "blocke": x["semi"] = True
    if vac == 1:
        for w in loops:
            if not any(n.get("k") == "while" and n is not w for n in rast.walk(w["b"])):
                # (a loop left by break: what is assumed of its guard reaches what follows it)
                w["b"]["st"].insert(len(w["b"]["st"]) - 1, rast.raw("        proof { assert(%s); }" % ("false" if w["tag"] != "loop" else "vstd::pervasive::arbitrary::<bool>()")))
                info["guards"] = info.get("guards", 0) + 1
    if any(l.after for l in c.loops):
        aft = {w["loop"]: sub(l.after) for w, l in zip(loops, c.loops) if l.after}

        def ins(n):
            if n.get("k") == "block":
                o = []
                for x in n["st"]:
                    o.append(x)
                    if x["k"] == "expr" and x["e"].get("k") == "while" and x["e"].get("loop") in aft:
                        x["semi"] = True
                        o.append(rast.raw("        proof { " + aft[x["e"]["loop"]] + " }"))
                n["st"] = o
            return n
        body = rast.rewrite(body, ins)
    for s in c.subst:
        body = s(body)
    known = set(c.known) | {"len", "push", "call", "is_none", "unwrap"}
    for n in rast.walk(body):
        if n.get("k") == "call" and n["f"].get("k") == "path":
            info.setdefault("calls", set()).add(n["f"]["p"])
        if n.get("k") == "mcall":
            info.setdefault("mcalls", set()).add(n["m"])
    ret = f["ret"]
    name = c.as_name or f["name"]
    sig = "    pub fn %s%s(%s)" % (name, "<" + ", ".join(gens) + ">" if gens else "", ", ".join(params))
    if ret and not c.drop_ret:
        sig += " -> (%s: %s)" % (c.ret, ret.strip())
    if wh:
        sig += "\n    where " + ", ".join(wh)
    if c.req: sig += "\n    requires\n" + "".join("        %s,\n" % sub(x) for x in c.req)
    if c.ens: sig += "\n    ensures\n" + "".join("        %s,\n" % sub(x) for x in c.ens)
    attr = "    #[verifier::loop_isolation(false)]\n"
    if any(l.brk for l in c.loops): attr += "    #[verifier::allow_complex_invariants]\n"
    if c.rlimit: attr += "    #[verifier::rlimit(%d)]\n" % c.rlimit
    if c.spinoff: attr += "    #[verifier::spinoff_prover]\n"
    if c.entry:
        body["st"].insert(0, rast.raw("        " + sub(c.entry)))
    if hard: body["st"].insert(0, rast.raw("        broadcast use vstd::arithmetic::mul::lemma_mul_is_commutative;"))
    if c.exit:
        # before the tail expression
        pos = len(body["st"]) - (1 if body["st"] and body["st"][-1]["k"] == "expr" and not body["st"][-1]["semi"] else 0)
        body["st"].insert(pos, rast.raw("        proof { " + sub(c.exit) + " }"))
    if vac == 2 and not (body["st"] and body["st"][-1]["k"] == "expr" and (body["st"][-1]["e"].get("k") in ("return",) or (body["st"][-1]["e"]["k"] == "call" and body["st"][-1]["e"]["f"].get("p") == "vpanic"))):
        pos = len(body["st"]) - (1 if body["st"] and body["st"][-1]["k"] == "expr" and not body["st"][-1]["semi"] else 0)
        body["st"].insert(pos, rast.raw("        proof { assert(false); }"))
        info["guards"] = info.get("guards", 0) + 1
    text = rast.ub(body, 2)
    # (a query of its own inside is not allowed in such a function)
    if hard > 1 and not re.search(r"\bby \(", text): attr += "    #[verifier::nonlinear]\n"
    text = attr + sig + "\n    " + text
    text = re.sub(r"\bMAX_BUFFER_SIZE\b", "MAX_BUFFER_SIZE", text)
    return f["impl"] if f["owner"] else "", text


def lift_nested(f, c):
    """functions declared inside a function become functions of their own, named <inner>_<outer>"""
    inner = {x["fn"]["name"]: x["fn"] for x in rast.walk(f["body"]) if x.get("k") == "fn" and "fn" in x}
    if c.nested is not None:
        if c.nested not in inner: raise Unsupported("%s: nested function %s not found (anchor lost)" % (f["name"], c.nested))
        g = inner[c.nested]
        g["name"] = "%s_%s" % (c.nested, f["name"])
        g.setdefault("generics", ""); g["impl"] = g.get("impl") or ""
        return g
    if inner:
        f["body"] = rast.rewrite(f["body"], lambda n: dict(n, st=[x for x in n["st"] if x.get("k") != "fn"]) if n.get("k") == "block" else n)
        f["body"] = rast.rewrite(f["body"], lambda n: dict(n, f=dict(n["f"], p="%s_%s" % (n["f"]["p"], f["name"]))) if n.get("k") == "call" and n["f"].get("k") == "path" and n["f"]["p"] in inner else n)
    return f


def top_closures(f):
    """the closures of a body, outermost only, in order"""
    out = []

    def go(n):
        if isinstance(n, list):
            for x in n: go(x)
        elif isinstance(n, dict):
            if n.get("k") == "closure": out.append(n); return
            for v in n.values():
                if isinstance(v, (dict, list)): go(v)
    go(f["body"])
    return out


def clo_locals(f, n):
    """locals of the enclosing function a closure uses, in order of definition"""
    inside = set()
    for x in rast.walk(n["b"]):
        if x.get("k") in ("let", "for") and isinstance(x.get("p"), dict): inside |= set(rast.pat_ids(x["p"]))
        if x.get("k") == "closure": inside |= {i for p in x["p"] for i in rast.pat_ids(p)}
    bound = {i for p in n["p"] for i in rast.pat_ids(p)}
    free = {x["p"] for x in rast.walk(n["b"]) if x.get("k") == "path"}
    out = []
    for x in rast.walk(f["body"]):
        if x is n: break
        if x.get("k") == "let":
            for i in rast.pat_ids(x["p"]):
                if i in free - bound - inside and i not in out: out.append(i)
    return out


def clo_params(f, n):
    """the parameters of the enclosing function a lifted closure takes (all but images it would have to own)"""
    used = {x["p"] for x in rast.walk(n["b"]) if x.get("k") == "path"}
    return [p for p in f["params"] if p["self"] or not p["ty"].strip().startswith("PixelBuffer") or p["p"].get("n") in used]


def clo_fn(f, c):
    """L10: closure number c.clo of a function as a function of its own, over the enclosing function's parameters, the locals it uses and its own parameters"""
    cl = top_closures(f)
    if c.clo >= len(cl): raise Unsupported("%s: closure %d not found (anchor lost)" % (f["name"], c.clo))
    n = cl[c.clo]
    loc = clo_locals(f, n)
    if len(loc) + len(n["p"]) != len(c.ctys): raise Unsupported("%s: closure %d has other captures or parameters" % (f["name"], c.clo))
    b = n["b"]
    sts = list(b["b"]["st"]) if b["k"] == "blocke" else [rast.st(b, False)]
    pr, pre = [{"self": False, "p": {"k": "id", "n": x, "mut": False, "ref": False, "sub": None}, "ty": t} for x, t in zip(loc, c.ctys)], []
    for j, (p, t) in enumerate(zip(n["p"], c.ctys[len(loc):])):
        if p["k"] == "typed": p = p["e"]
        if p["k"] != "id":
            if p["k"] == "slice":
                # a destructured array of references or values
                for q, x in enumerate(p["e"]):
                    if x["k"] == "wild": continue
                    if x["k"] != "id": raise Unsupported("closure parameter")
                    pre.append(rast.letp(x, rast.idx(rast.path("_q%d" % j), rast.lit("%dusize" % q))))
            elif p["k"] != "wild": pre.append(rast.letp(p, rast.path("_q%d" % j)))
            p = {"k": "id", "n": "_q%d" % j, "mut": False, "ref": False, "sub": None}
        pr.append({"self": False, "p": p, "ty": t})
    return dict(f, name="clo%d_%s" % (c.clo, f["name"]), params=clo_params(f, n) + pr, ret=c.cret, body=rast.block(pre + sts))


def clo_lift(f, c):
    cl = top_closures(f)
    m = {}
    for k in c.lift:
        if k >= len(cl): raise Unsupported("%s: closure %d not found (anchor lost)" % (f["name"], k))
        m[id(cl[k])] = k

    def go(n):
        if isinstance(n, list): return [go(x) for x in n]
        if not isinstance(n, dict): return n
        if id(n) in m:
            k = m[id(n)]
            ps = [{"k": "id", "n": "_c%d" % j, "mut": False, "ref": False, "sub": None} for j in range(len(n["p"]))]
            g = [x.split(":")[0].replace("const ", "").strip() for x in split_top(f["generics"][1:-1])] if f["generics"] else []
            args = [rast.path(p["p"]["n"]) for p in clo_params(f, n)] + [rast.path(x) for x in clo_locals(f, n)] + [rast.path(p["n"]) for p in ps]
            return dict(n, p=ps, b=rast.call("clo%d_%s%s" % (k, f["name"], "::<%s>" % ", ".join(g) if g else ""), *args))
        return {k: go(v) if isinstance(v, (dict, list)) else v for k, v in n.items()}
    return dict(f, body=go(f["body"]))


def const_path(n, consts):
    if n.get("k") == "path" and n["p"].replace(" ", "").split("::")[-1] in consts:
        return {"k": "rawe", "t": "%s()" % n["p"].replace(" ", "").split("::")[-1]}
    return n


def unqualify(b):
    """`crate::filters::f` -> `f`: the functions of a unit live in one module"""
    def g(n):
        if n.get("k") == "path" and re.match(r"^(crate|super|self)\s*::", n["p"]):
            p, d, i = n["p"].replace(" ", ""), 0, 0
            q = p.split("::<")[0].split("::")
            keep = 2 if len(q) > 1 and q[-2][:1].isupper() else 1
            return dict(n, p="::".join(q[-keep:]) + ("::<" + p.split("::<", 1)[1] if "::<" in p else ""))
        return n
    return rast.rewrite(b, g)


def rel_item(name, key, tys, ret, pre, post, callee):
    """a function item passed as a callable: its contract as an instance of the relational callable trait, its call verified against that contract"""
    args = ", ".join("a%d: %s" % z for z in enumerate(tys))
    cargs = ", ".join("a%d: %s%s" % (i, "&" if k == "r" else "", t) for i, (t, k) in enumerate(zip(tys, key)))
    # in executable position a reference parameter is &T
    return ("pub struct It_%s { pub u: u8 }\nimpl FR%s<%s> for It_%s {\n    open spec fn pre(&self, %s) -> bool { %s }\n    open spec fn post(&self, %s, r: %s) -> bool { %s }\n    fn call(&self, %s) -> (r: %s) { %s(%s) }\n}\n" % (
        name, key, ", ".join(tys + [ret]), name, args, pre, args, ret, post, cargs, ret, callee, ", ".join("a%d" % i for i in range(len(tys)))))


def items_subst(table):
    """path (blanks removed) -> instance name"""
    def go(b):
        def g(n):
            if n.get("k") == "call" or n.get("k") == "mcall":
                return dict(n, a=[({"k": "rawe", "t": "(&It_%s { u: 0 })" % table[x["p"].replace(" ", "")]} if x.get("k") == "path" and x["p"].replace(" ", "") in table else x) for x in n["a"]])
            return n
        return rast.rewrite(b, g)
    return go


_src_cache = {}


def parse_src(src, name):
    if src not in _src_cache:
        r = subprocess.run([native.vx_exe(), "-", "ast"], input=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise Unsupported("harness source: " + r.stdout)
        _src_cache[src] = [rast.drop_noops(x) for x in json.loads(r.stdout)]
    for f in _src_cache[src]:
        if f["k"] == "fnitem" and f["name"] == name:
            return copy.deepcopy(f)
    raise Unsupported("harness " + name)


def fm_trait(key):
    kind, key = key[0], key[1:]
    n = len(key)
    A = ["A%d" % i for i in range(n)]
    args = ", ".join("a%d: %s" % (i, {"r": "&A%d", "v": "A%d", "s": "&[A%d]"}[k] % i) for i, k in enumerate(key))
    tup = "(" + ", ".join([{"r": "*a%d", "v": "a%d", "s": "a%d@"}[k] % i for i, k in enumerate(key)] + ["r"]) + ")"
    L = ["Seq<A%d>" % i if k == "s" else "A%d" % i for i, k in enumerate(key)]
    slices = ""
    sp, va = ", ".join("a%d: %s" % (i, a) for i, a in enumerate(A)), ", ".join(["%sa%d" % ("*" if k == "r" else "", i) for i, k in enumerate(key)])
    if kind == "R":
        return ("/// a callable without effects, known by a precondition and a postcondition\npub trait FR%s<%s, R>: Sized {\n    spec fn pre(&self, %s) -> bool;\n    spec fn post(&self, %s, r: R) -> bool;\n"
                "    fn call(&self, %s) -> (r: R) requires self.pre(%s) ensures self.post(%s, r);\n}\n" % (key, ", ".join(A), sp, sp, args, va, va))
    if kind == "P":
        return ("/// a callable without effects (bound Fn)\npub trait FP%s<%s, R>: Sized {\n    spec fn f(&self, %s) -> R;\n    spec fn pre(&self, %s) -> bool;\n"
                "    fn call(&self, %s) -> (r: R) requires self.pre(%s) ensures r == self.f(%s);\n}\n" % (key, ", ".join(A), sp, sp, args, va, va))
    return ("/// a callable with a ghost log of its calls\npub trait FM%s<%s, R>: Sized {\n    spec fn log(&self) -> Seq<(%s, R)>;\n"
            "    fn call(&mut self, %s) -> (r: R) ensures final(self).log() == old(self).log().push(%s);\n}\n" % (key, ", ".join(A), ", ".join(L), args, tup))


def build(unit, mode, vac=0, hard=0, which=()):
    """-> (text, {line range: fn name}, infos).  hard: the functions named in `which` are given the commutativity of
    multiplication (1) and the solver's nonlinear arithmetic as well (2): another proof of the same obligations"""
    fmkeys, out, infos, ranges = set(), [], {}, []
    for c in unit.fns:
        info = {}
        head, t = emit_fn(c, fmkeys, info, vac, unit.real, hard if (c.as_name or c.name) in which else 0)
        infos[c.as_name or c.name] = info
        out.append((c, head, t))
    pre = unit.prelude() if callable(unit.prelude) else unit.prelude
    if unit.real:
        import vreal
        pre = vreal.prelude_text(hard > 0) + vreal.ty_sub(pre)
    text = "use vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n" + pre + "\n" + "\n".join(fm_trait(k) for k in sorted(fmkeys)) + "\n"
    for i in infos.values():
        text += "".join(i.get("clos", []))
    for c, head, t in out:
        if head or c.selfty:
            g, ty = c.selfty or head.split("|", 1)
            start = text.count("\n") + 1
            text += "impl%s %s {\n%s\n}\n" % (g, ty, t)
        else:
            start = text.count("\n") + 1
            text += t + "\n"
        ranges.append((start, text.count("\n") + 1, c.as_name or c.name))
    text += "fn main() {}\n}\n"
    return text, ranges, infos


GENUINE = re.compile(r"requires not satisfied|postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|possible arithmetic (under|over)flow|"
                     r"possible division by zero|decreases not satisfied|possible bit shift|recommendation not met|possible out of bounds|index out of bounds|cannot prove|unreachable")
SOFT = re.compile(r"rlimit|Resource limit|timed out|not supported|does not (?:yet|currently) support|The verifier does not")


def verus(name, text, ranges, timeout=300, args=(), multi=2):
    """-> {fn: [error messages]} (genuine), undecided message or None, stats"""
    os.makedirs(OUT, exist_ok=True)
    p = os.path.join(OUT, name + ".rs")
    open(p, "w").write(text)
    cmd = ["verus", p, "--triggers-mode", "silent", "--output-json", "--error-format", "json", "--num-threads", "8", "--multiple-errors", str(multi), *args]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=OUT)
    except subprocess.TimeoutExpired:
        return {}, "verus timed out", {"cmd": " ".join(cmd), "verified": 0, "errors": 0, "seconds": timeout}
    secs = time.time() - t0
    errs, soft = {}, []
    for line in r.stderr.split("\n"):
        if not line.startswith("{"):
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") != "error":
            continue
        m = d.get("message", "")
        if m.startswith("aborting due"):
            continue
        spans = d.get("spans", [])
        prim = [s for s in spans if s.get("is_primary")] or spans
        ln = prim[0]["line_start"] if prim else 0
        fn = next((n for a, b, n in ranges if a <= ln <= b), "(prelude)")
        # a failed callee precondition points into the callee: attribute it to the caller's span if there is one
        where = [s["line_start"] for s in spans]
        if SOFT.search(m) or not GENUINE.search(m):
            soft.append("%s: %s" % (fn, m[:200]))
        else:
            labels = [(s.get("label") or "") + ": " + " ".join(t["text"].strip() for t in s.get("text", []))[:200] for s in spans]
            errs.setdefault(fn, []).append({"message": m, "at": labels})
    try:
        j = json.loads(r.stdout)
        vr = j.get("verification-results", {})
    except ValueError:
        vr = {}
    stats = {"cmd": " ".join(cmd), "verified": vr.get("verified", 0), "errors": vr.get("errors", 0), "seconds": round(secs, 2)}
    if not vr or vr.get("encountered-vir-error") or (r.returncode != 0 and not errs):
        return {}, "verus did not check it: " + "; ".join(soft[:3] or [r.stderr[-300:]]), stats
    if vr.get("success") and vr.get("verified", 0) == 0:
        return {}, "nothing verified", stats
    return errs, ("; ".join(soft) if soft else None), stats


def vacuity(unit, mode, name):
    """the same unit with assert(false) at the end of every function and innermost loop body: every one of them must fail"""
    bad, n, secs = [], 0, 0.0
    for which in (1, 2):
        text, ranges, infos = build(unit, mode, vac=which)
        if not any(i.get("guards") for i in infos.values()): continue
        errs, und, st = verus("%s%d" % (name, which), text, ranges, multi=12)
        secs += st["seconds"]
        for fn, info in infos.items():
            want = info.get("guards", 0)
            n += want
            got = sum(1 for e in errs.get(fn, []) if e["message"] == "assertion failed")
            # a guard the solver gives up on was not discharged either
            if got < want and und and re.search(r"\b%s: [^;]*rlimit" % re.escape(fn), und): continue
            if got < want: bad.append("%s (%d of %d guards reached)" % (fn, got, want))
    return {"bad": bad, "guards": n, "seconds": secs}


def trusted(text):
    """signatures of the external_body / assume_specification items of a generated file"""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        if "verifier::external_body" in l:
            m = re.search(r"fn (\w+).*", l) or (re.search(r"fn (\w+).*", lines[i + 1]) if i + 1 < len(lines) else None) or re.search(r"struct (\w+)", lines[i + 1] if i + 1 < len(lines) else "")
            if m: out.append(m.group(1) + (" (contract of a callee, discharged by the unit that proves it)" if i and "// callee contract" in lines[i - 1] else ""))
        elif "assume_specification" in l:
            out.append(l.strip()[:160])
    return sorted(set(out))
