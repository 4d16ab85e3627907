"""Rust AST (from `vx FILE ast`) in Python: loading, unparsing and the lowering used by the Verus weaver.

The verified text is regenerated from /repo's current syntax tree on every run.  What unparsing drops: comments,
formatting, attributes, visibility.  What lowering changes (each by its defining equation, nothing else):
  L1  `for p in ITER {..}` and iterator chains become index `while` loops over the same elements in the same order
      (range, iter, iter_mut, enumerate, zip, map; sinks: for, collect, any, all, max, sum);
  L2  `assert!/assert_eq!/panic!/unreachable!` become `if !c { vpanic() }` / `vpanic()`;
  L3  a callable parameter `F: FnMut(A) -> R` becomes `&mut F` with `F: FM..<A, R>`, a trait whose ghost log records
      every call (so contracts can speak about which calls were made, in which order, with which results);
  L4  `e?` becomes the match it abbreviates (identical error type);
  L5  `vec![e; n]`, `Default::default()`, `clamp`, `to_vec` become calls of trusted helpers with the std contract;
  L8  a closure bound to a local variable and only called is inlined at its calls;
  L6  a call of a higher-order function of the library with a closure argument is replaced by that function's own
      body with the closure body in place of the call of its parameter.
  L10-L12 see weave.py (lifted closures) and below; L13 a reversed indexed sequence is read from its end;
  L14 a fold over an iterator chain is the loop that carries its accumulator.
Anything else is refused (Unsupported) and the unit is reported as undecided, never as a violation."""
import copy, json, os, re, subprocess
import native


class Unsupported(Exception):
    pass


_cache = {}


def load(rel):
    if rel in _cache:
        return _cache[rel]
    native.vx_exe()
    p = os.path.join(native.REPO, rel)
    r = subprocess.run([native.vx_exe(), p, "ast"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise Unsupported("%s: not parsed" % rel)
    _cache[rel] = [drop_noops(x) for x in json.loads(r.stdout)]
    return _cache[rel]


# ------------------------------------------------------------------ statements that do nothing
def pure_const(e):
    """an expression of literals only: evaluating it has no effect and cannot fail"""
    e = strip(e)
    k = e.get("k")
    if k == "lit": return True
    if k == "tuple": return all(pure_const(x) for x in e["e"])
    if k == "un": return e["op"] in "-!" and pure_const(e["e"])
    if k == "bin": return e["op"] in ("+", "==", "!=", "<", ">", "<=", ">=", "&&", "||") and pure_const(e["l"]) and pure_const(e["r"])
    if k == "blocke": return e.get("label") is None and all(noop(x, True) for x in e["b"]["st"])
    if k == "call": return e["f"].get("k") == "path" and re.sub(r"::<.*", "", e["f"]["p"].replace(" ", "")).split("::")[-1] in ("black_box", "drop", "size_of", "align_of") and all(pure_const(x) for x in e["a"])
    if k == "macro": return e["n"] in ("assert", "debug_assert") and len(e.get("a") or []) >= 1 and strip(e["a"][0]).get("t") == "true"
    if k == "if": return strip(e["c"]).get("t") == "false" and strip(e["c"])["k"] == "lit" and (e["e"] is None or pure_const(e["e"])) or pure_const(e["c"]) and all(noop(x, True) for x in e["t"]["st"]) and (e["e"] is None or pure_const(e["e"]))
    if k == "while": return strip(e["c"]).get("t") == "false" and strip(e["c"])["k"] == "lit"
    if k == "block": return all(noop(x, True) for x in e["st"])
    if k == "other": return e.get("t") == ""
    return False


def noop(s, last):
    if s["k"] == "let":
        p = s["p"]
        return s.get("else") is None and (s["e"] is None or pure_const(s["e"]) or strip(s["e"])["k"] == "path" and p["k"] == "wild" or strip(s["e"])["k"] == "ref" and strip(strip(s["e"])["e"])["k"] == "path" and p["k"] == "wild") and (p["k"] == "wild" or p["k"] == "id" and not p.get("sub") and p["n"].startswith("_") and s["e"] is not None)
    if s["k"] == "expr":
        e = strip(s["e"])
        if s["semi"]: return pure_const(e)
        return e["k"] in ("if", "while") and pure_const(e) and e.get("e") is None or e["k"] == "blocke" and pure_const(e) and all(x["k"] != "expr" or x["semi"] or strip(x["e"])["k"] in ("if", "while", "blocke") for x in e["b"]["st"])
    return False


def drop_noops(f):
    if not isinstance(f, dict) or "body" not in f: return f
    used = {n["p"].split("::")[0] for n in walk(f["body"]) if n.get("k") == "path"}
    txt = " ".join(n.get("t") or "" for n in walk(f["body"]) if n.get("k") in ("macro", "item"))

    def g(n):
        if n.get("k") == "block" and any(noop(s, False) for s in n["st"]):
            return dict(n, st=[s for s in n["st"] if not (noop(s, False) and not (s["k"] == "let" and s["p"]["k"] == "id" and (s["p"]["n"] in used or re.search(r"\b%s\b" % re.escape(s["p"]["n"]), txt))))])
        return n
    return dict(f, body=rewrite(f["body"], g))


def find(rel, name, owner="", trait=None, impl=None):
    for f in load(rel):
        if f["k"] == "fnitem" and f["name"] == name and f["owner"] == owner and (trait is None or f["trait"] == trait) and (impl is None or impl in f["impl"]):
            return copy.deepcopy(f)
    raise Unsupported("%s: %s not found (anchor lost)" % (rel, (owner + "::" if owner else "") + name))


def const(rel, name, owner=""):
    for f in load(rel):
        if f["k"] == "constitem" and f["name"] == name and f["owner"] == owner:
            return f
    raise Unsupported("%s: const %s not found (anchor lost)" % (rel, name))


# ------------------------------------------------------------------ constructors
def path(p): return {"k": "path", "p": p}
def lit(t): return {"k": "lit", "t": t, "ty": "int"}
def mcall(e, m, *a): return {"k": "mcall", "e": e, "m": m, "tf": None, "a": list(a)}
def call(f, *a): return {"k": "call", "f": path(f) if isinstance(f, str) else f, "a": list(a)}
def idx(e, i): return {"k": "index", "e": e, "i": i}
def ref(e, m=False): return {"k": "ref", "mut": m, "e": e}
def block(st): return {"k": "block", "st": st}
def blocke(st): return {"k": "blocke", "b": block(st), "label": None}
def let(n, e, mut=False, ty=None): return {"k": "let", "p": {"k": "id", "n": n, "mut": mut, "ref": False, "sub": None}, "ty": ty, "e": e, "else": None}
def letp(p, e): return {"k": "let", "p": p, "ty": None, "e": e, "else": None}
def st(e, semi=True): return {"k": "expr", "e": e, "semi": semi}
def raw(t): return {"k": "raw", "t": t}
def binop(op, l, r): return {"k": "bin", "op": op, "l": l, "r": r}
def paren(e): return {"k": "paren", "e": e}


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def rewrite(n, f):
    """bottom-up rewrite of every node"""
    if isinstance(n, dict):
        r = {k: (rewrite(v, f) if isinstance(v, (dict, list)) else v) for k, v in n.items()}
        return f(r)
    if isinstance(n, list):
        return [rewrite(v, f) for v in n]
    return n


def okval(e):
    """x for an expression that is Ok(x) by its form, otherwise None"""
    x = strip(e)
    if x["k"] == "call" and x["f"].get("p") == "Ok" and len(x["a"]) == 1: return x["a"][0]
    if x["k"] == "blocke" and x["b"]["st"] and x["b"]["st"][-1].get("k") == "expr" and not x["b"]["st"][-1]["semi"]:
        v = okval(x["b"]["st"][-1]["e"])
        if v is not None: return dict(x, b=dict(x["b"], st=x["b"]["st"][:-1] + [dict(x["b"]["st"][-1], e=v)]))
    return None


def pat_ids(p):
    return [x["n"] for x in walk(p) if x.get("k") == "id"]


def strip(e):
    while e.get("k") in ("paren",):
        e = e["e"]
    return e


def split_top(s):
    out, d, cur, prev = [], 0, "", ""
    for c in s:
        if c in "(<[{": d += 1
        elif c in ")]}" or (c == ">" and prev != "-"): d -= 1
        if c == "," and d == 0: out.append(cur); cur = ""
        else: cur += c
        prev = c
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out]


def gstrip(p):
    """path without its trailing generic arguments, and those arguments"""
    p = p.replace(" ", "")
    if p.endswith(">") and "::<" in p:
        i = p.index("::<")
        return p[:i], split_top(p[i + 3:-1])
    return p, []


def mark_collect(e):
    if e is not None and e.get("k") == "mcall" and e["m"] == "collect" and not e.get("tf"):
        return dict(e, res=True)
    return e


def deref(e):
    """name of a variable, possibly dereferenced"""
    e = strip(e)
    if e["k"] == "un" and e["op"] == "*": e = strip(e["e"])
    return e["p"] if e["k"] == "path" else None


# ------------------------------------------------------------------ unparse
def up(p):
    k = p["k"]
    if k == "id":
        s = ("ref " if p["ref"] else "") + ("mut " if p["mut"] else "") + p["n"]
        return s + (" @ " + up(p["sub"]) if p.get("sub") else "")
    if k == "wild": return "_"
    if k == "rest": return ".."
    if k == "tuple": return "(" + ", ".join(up(x) for x in p["e"]) + ("," if len(p["e"]) == 1 else "") + ")"
    if k == "tstruct": return p["p"] + "(" + ", ".join(up(x) for x in p["e"]) + ")"
    if k == "struct": return p["p"] + " { " + ", ".join(["%s: %s" % (a, up(b)) for a, b in p["f"]] + ([".."] if p["rest"] else [])) + " }"
    if k == "ref": return "&" + ("mut " if p["mut"] else "") + up(p["e"])
    if k == "or": return " | ".join(up(x) for x in p["e"])
    if k == "slice": return "[" + ", ".join(up(x) for x in p["e"]) + "]"
    if k == "typed": return up(p["e"]) + ": " + p["ty"]
    if k == "path": return p["p"]
    return p["t"]


def ub(b, ind=1):
    out = []
    t = "    " * ind
    for s in b["st"]:
        out.append(t + us(s, ind))
    return "{\n" + "\n".join(out) + "\n" + "    " * (ind - 1) + "}"


def us(s, ind=1):
    k = s["k"]
    if k == "raw": return s["t"]
    if k == "let":
        r = "let " + up(s["p"])
        if s["ty"]: r += ": " + s["ty"]
        if s["e"] is not None: r += " = " + ue(s["e"], ind)
        if s.get("else"): r += " else " + ue(s["else"], ind)
        return r + ";"
    if k == "item": return s["t"]
    if k == "fn": raise Unsupported("nested function")
    e = s["e"]
    return ue(e, ind) + (";" if s["semi"] else "")


def opt_label(e):
    return ("'%s: " % e["label"]) if e.get("label") else ""


def ue(e, ind=1):
    k = e["k"]
    U = lambda x: ue(x, ind)
    if k == "path": return e["p"]
    if k == "lit": return e["t"]
    if k == "array": return "[" + ", ".join(map(U, e["e"])) + "]"
    if k == "assign": return U(e["l"]) + " = " + U(e["r"])
    if k == "bin":
        return at(e["l"], ind) + " " + e["op"] + " " + at(e["r"], ind)
    if k == "blocke": return opt_label(e) + ub(e["b"], ind + 1)
    if k == "break": return "break" + (" '" + e["label"] if e["label"] else "") + (" " + U(e["e"]) if e["e"] else "")
    if k == "continue": return "continue" + (" '" + e["label"] if e["label"] else "")
    if k == "call":
        f = e["f"]
        return (U(f) if f["k"] == "path" else "(" + U(f) + ")") + "(" + ", ".join(map(U, e["a"])) + ")"
    if k == "cast": return at(e["e"], ind) + " as " + e["ty"]
    if k == "closure":
        r = ("move " if e["move"] else "") + "|" + ", ".join(up(x) for x in e["p"]) + "|"
        if e.get("spec"):
            return r + " -> " + e["spec"] + " { " + U(e["b"]) + " }"
        if e["ret"]: r += " -> " + e["ret"]
        return r + " " + U(e["b"])
    if k == "field": return at(e["e"], ind) + "." + e["n"]
    if k == "for": return opt_label(e) + "for " + up(e["p"]) + " in " + U(e["e"]) + " " + inv(e, ind) + ub(e["b"], ind + 1)
    if k == "if": return "if " + U(e["c"]) + " " + ub(e["t"], ind + 1) + (" else " + U(e["e"]) if e["e"] else "")
    if k == "index": return at(e["e"], ind) + "[" + U(e["i"]) + "]"
    if k == "letc": return "let " + up(e["p"]) + " = " + U(e["e"])
    if k == "loop": return opt_label(e) + "loop " + inv(e, ind) + ub(e["b"], ind + 1)
    if k == "while": return opt_label(e) + "while " + U(e["c"]) + " " + inv(e, ind) + ub(e["b"], ind + 1)
    if k == "macro":
        if "rep" in e: return "%s![%s; %s]" % (e["n"], U(e["rep"][0]), U(e["rep"][1]))
        if "a" in e: return "%s![%s]" % (e["n"], ", ".join(map(U, e["a"]))) if e["n"] == "vec" else "%s!(%s)" % (e["n"], ", ".join(map(U, e["a"])))
        return "%s!(%s)" % (e["n"], e["t"])
    if k == "match":
        arms = ["    " * ind + up(a["p"]) + (" if " + U(a["g"]) if a["g"] else "") + " => " + ue(a["b"], ind + 1) + "," for a in e["arms"]]
        return "match " + U(e["e"]) + " {\n" + "\n".join(arms) + "\n" + "    " * (ind - 1) + "}"
    if k == "mcall": return at(e["e"], ind) + "." + e["m"] + (e["tf"] or "") + "(" + ", ".join(map(U, e["a"])) + ")"
    if k == "paren": return "(" + U(e["e"]) + ")"
    if k == "range": return (at(e["l"], ind) if e["l"] else "") + ("..=" if e["incl"] else "..") + (at(e["r"], ind) if e["r"] else "")
    if k == "ref": return "&" + ("mut " if e["mut"] else "") + at(e["e"], ind)
    if k == "repeat": return "[" + U(e["e"]) + "; " + U(e["n"]) + "]"
    if k == "return": return "return" + (" " + U(e["e"]) if e["e"] else "")
    if k == "struct":
        return e["p"] + " { " + ", ".join(["%s: %s" % (a, U(b)) for a, b in e["f"]] + ([".." + U(e["rest"])] if e["rest"] else [])) + " }"
    if k == "try": return at(e["e"], ind) + "?"
    if k == "tuple": return "(" + ", ".join(map(U, e["e"])) + ("," if len(e["e"]) == 1 else "") + ")"
    if k == "un": return e["op"] + at(e["e"], ind)
    if k == "rawe": return e["t"]
    raise Unsupported("expression " + e.get("t", k)[:60])


def at(e, ind):
    """operand: parenthesised unless atomic"""
    if e["k"] in ("path", "lit", "paren", "call", "mcall", "field", "index", "tuple", "array", "macro", "rawe", "try"):
        return ue(e, ind)
    return "(" + ue(e, ind) + ")"


def inv(e, ind):
    if not e.get("inv"):
        return ""
    t = "    " * ind
    return "\n" + e["inv"] + "\n" + t[:-4]


# ------------------------------------------------------------------ lowering
OPTION_COMBINATORS = ("filter", "map", "and_then", "map_or", "or_else", "is_some_and", "is_none_or", "ok_or_else")


class Lower:
    """One function body.  resolve(name, recv_type_hint) gives the AST of a library function to inline."""
    def __init__(self, fm=None, resolve=None, adaptors=None, results=(), inline=None):
        self.n = 0
        self.fm = fm or {}            # callable parameter -> True
        self.resolve = resolve or {}  # method name -> AST of a fn returning an iterator chain
        self.adaptors = adaptors or {}
        self.inline = inline or {}    # path of a higher-order function -> (AST, number of the closure argument)
        self.results = set(results)
        self.hmuts = {}
        self.loops = []

    # ---- iterator chains
    SINK = {"collect", "any", "all", "max", "sum", "count", "find"}
    SRC = {"iter", "iter_mut", "into_iter"}

    def chain(self, e):
        """-> list of (kind, data) from source to last adaptor, or None"""
        e = strip(e)
        if e["k"] == "range" and e["l"] is not None and e["r"] is not None:
            return [("range", e)]
        if e["k"] == "mcall":
            m, a = e["m"], e["a"]
            if m in ("iter", "iter_mut") and not a:
                return [(m, e["e"])]
            if m == "chunks" and len(a) == 1:
                return [("chunks", (e["e"], a[0]))]
            if m == "pixels" and not a:
                return [("iter", mcall(e["e"], "pixel_seq"))]
            if m in self.resolve and not a and self.chain(e["e"]) is None:
                return self.inlined_chain(e)
            if m == "filter" and len(a) == 1:
                c = self.chain(e["e"])
                return None if c is None or any(x[0] == "filter" for x in c) else c + [("filter", a[0])]
            if m in ("enumerate", "cloned", "copied", "rev", "map", "zip", "into_iter", "by_ref") or m in self.adaptors:
                c = self.chain(e["e"])
                if c is None:
                    return None
                if any(x[0] == "filter" for x in c): raise Unsupported("filter in the middle of a chain")
                if m == "enumerate" and not a: return c + [("enumerate", None)]
                if m in ("cloned", "copied") and not a: return c + [("deref", None)]
                if m == "map" and len(a) == 1: return c + [("map", a[0])]
                if m == "rev" and not a and not any(x[0] in ("map", "rev", "pre") for x in c): return c + [("rev", None)]
                if m == "zip" and len(a) == 1:
                    d = self.chain(a[0])
                    if d is None: return None
                    return c + [("zip", d)]
                if m == "into_iter": return c
                if m in self.adaptors and not a: return c + [("map", self.adaptors[m])]
        return None

    def flat_parts(self, e):
        """X.flat_map(|p| Y) -> (X, p, Y)"""
        e = strip(e)
        if e["k"] == "mcall" and e["m"] == "flat_map" and len(e["a"]) == 1:
            f = strip(e["a"][0])
            if f["k"] == "closure" and len(f["p"]) == 1 and not any(x.get("k") in ("return", "try") for x in walk(f["b"])):
                b = strip(f["b"])
                if b["k"] == "blocke" and len(b["b"]["st"]) == 1 and b["b"]["st"][0]["k"] == "expr" and not b["b"]["st"][0]["semi"]: b = strip(b["b"]["st"][0]["e"])
                if b["k"] == "mcall" and b["m"] == "map" and len(b["a"]) == 1 and strip(b["e"])["k"] in ("path", "rawe"):
                    # map of an array, by value
                    n = "_arr"
                    b = blocke([let(n, b["e"]), st(mcall(mcall(mcall(path(n), "iter"), "cloned"), "map", b["a"][0]), False)])
                return e["e"], f["p"][0], b
        return None

    def inlined_chain(self, e):
        f = copy.deepcopy(self.resolve[e["m"]])
        recv = e["e"]
        if strip(recv)["k"] not in ("path", "field"):
            raise Unsupported("receiver of %s()" % e["m"])
        body = rewrite(f["body"], lambda n: copy.deepcopy(recv) if n.get("k") == "path" and n.get("p") == "self" else n)
        sts = body["st"]
        if not sts or sts[-1]["k"] != "expr" or sts[-1]["semi"] or any(s["k"] != "let" for s in sts[:-1]):
            raise Unsupported("shape of %s()" % e["m"])
        c = self.chain(sts[-1]["e"])
        if c is None:
            raise Unsupported("shape of %s()" % e["m"])
        return [("pre", sts[:-1])] + c

    def source_loop(self, c):
        """-> (setup statements, bound expr, init expr, per-iteration statements, element AST)"""
        k = self.n
        self.n += 1
        i = "_i%d" % k
        setup, pre = [], []
        c = list(c)
        while c and c[0][0] == "pre":
            setup += [self.stmt(s) for s in c[0][1]]
            c = c[1:]
        kind, d = c[0]
        if kind == "range":
            if d["incl"]:
                m_ = re.match(r"^(\d+)(\w*)$", strip(d["r"])["t"]) if strip(d["r"])["k"] == "lit" else None
                # an end that is not a constant must be below the type's maximum (checked)
                d = dict(d, r=lit("%d%s" % (int(m_.group(1)) + 1, m_.group(2))) if m_ else binop("+", paren(d["r"]), lit("1")))
            setup.append(let("_n%d" % k, self.expr(d["r"])))
            init = self.expr(d["l"])
            el = path(i)
            ity = None
        elif kind == "chunks":
            x = self.expr(d[0])
            if strip(x)["k"] != "path" or strip(d[1])["k"] not in ("lit", "path"): raise Unsupported("chunks of something that is not a place")
            sz = self.expr(d[1])
            setup.append(let("_n%d" % k, call("v_chunks_len", mcall(x, "len"), sz)))
            init = lit("0usize")
            el = call("v_chunk", ref(x), sz, path(i))
        else:
            x = self.expr(d)
            if any(n.get("k") in ("mcall", "call") and n.get("m") not in ("data", "width", "height", "pixel_seq") for n in walk(x)):
                raise Unsupported("source of an iterator chain is not a place")
            base = x
            if kind == "iter_mut" and strip(x)["k"] == "mcall":
                raise Unsupported("iter_mut on a call")
            setup.append(let("_n%d" % k, mcall(base, "len")))
            init = lit("0usize")
            el = ref(idx(base, path(i)), kind == "iter_mut")
        if any(x[0] == "filter" for x in c): raise Unsupported("filter before this sink")
        for kind, d in c[1:]:
            if kind == "enumerate":
                if c[0][0] == "range": raise Unsupported("enumerate of a range")
                el = {"k": "tuple", "e": [path(i), el]}
            elif kind == "rev":
                # L13: element j of a reversed sequence of n elements is element n - 1 - j
                if c[0][0] == "range" and strip(init)["k"] != "lit": raise Unsupported("rev of a range")
                back = binop("-", binop("-", path("_n%d" % k), lit("1")), path(i))
                if c[0][0] == "range" and strip(init)["t"] != "0": back = binop("+", back, init)
                el = rewrite(el, lambda n: paren(back) if n.get("k") == "path" and n["p"] == i else n)
            elif kind == "deref":
                el = {"k": "un", "op": "*", "e": el}
            elif kind == "zip":
                if len([x for x in d if x[0] != "pre"]) != 1 or d[-1][0] not in ("iter", "iter_mut") or c[0][0] == "range":
                    raise Unsupported("zip")
                for s in d[:-1]: setup += [self.stmt(q) for q in s[1]]
                b2 = self.expr(d[-1][1])
                z = "_z%d" % k
                setup.append(let(z, mcall(b2, "len")))
                setup.append(let("_n%d" % k, {"k": "rawe", "t": "if _n%d < %s { _n%d } else { %s }" % (k, z, k, z)}))
                el = {"k": "tuple", "e": [el, ref(idx(b2, path(i)), d[-1][0] == "iter_mut")]}
            elif kind == "map":
                f = strip(d)
                if f["k"] == "closure":
                    if len(f["p"]) != 1: raise Unsupported("closure arity")
                    bs = self.bind(f["p"][0], el)
                    pre += bs
                    body = self.expr(f["b"])
                    el = body
                    if body["k"] == "blocke":
                        sts = body["b"]["st"]
                        if sts and sts[-1]["k"] == "expr" and not sts[-1]["semi"] and not any(x.get("k") == "return" for x in walk(body)):
                            pre += sts[:-1]
                            el = sts[-1]["e"]
                elif f["k"] == "path":
                    el = self.expr(self.apply(f, [el]))
                else:
                    raise Unsupported("map argument")
        return k, setup, init, pre, el

    def apply(self, f, args):
        return {"k": "call", "f": f, "a": args}

    def bind(self, p, el):
        """statements binding pattern p to element el"""
        el = strip(el)
        if p["k"] == "typed": p = p["e"]
        if p["k"] == "wild": return []
        if p["k"] == "tuple":
            if el["k"] == "tuple" and len(el["e"]) == len(p["e"]):
                r = []
                for a, b in zip(p["e"], el["e"]): r += self.bind(a, b)
                return r
            return [letp(p, el)]
        if p["k"] == "ref":
            if el["k"] == "ref": return self.bind(p["e"], el["e"])
            return self.bind(p["e"], {"k": "un", "op": "*", "e": el})
        if p["k"] == "id":
            if el["k"] == "path" and el["p"] == p["n"]: return []
            return [letp(p, el)]
        if p["k"] == "slice" and el["k"] == "path" and all(q["k"] in ("id", "wild") for q in p["e"]) and el["p"] not in pat_ids(p):
            # a destructured array of copyable values
            return [x for i, q in enumerate(p["e"]) for x in self.bind(q, idx(el, lit("%dusize" % i)))]
        raise Unsupported("pattern " + p["k"])

    def mkloop(self, k, setup, init, body, cond_extra=None, tag="for"):
        c = binop("<", path("_i%d" % k), path("_n%d" % k))
        if cond_extra:
            c = binop("&&", c, cond_extra)
        w = {"k": "while", "c": c, "b": block(body + [st({"k": "bin", "op": "+=", "l": path("_i%d" % k), "r": lit("1")})]), "label": None, "loop": k, "tag": tag}
        self.loops.append(w)
        return setup + [let("_i%d" % k, init, True), st(w, True)]

    def sink(self, e, ty=None):
        """lowering of a chain ending in a sink; None when e is not one"""
        m = e["m"]
        if m == "collect":
            fl = self.flat_parts(e["e"])
            if fl is not None and "Result" not in (e.get("tf") or "") + " " + (ty or ""):
                outer, p, inner = fl
                v = "_f%d" % self.n
                q = {"k": "id", "n": "_q", "mut": False, "ref": False, "sub": None}
                push = lambda x: {"k": "expr", "e": {"k": "for", "p": q, "e": x, "b": block([st(mcall(path(v), "push", path("_q")))])}, "semi": True}
                ib = strip(inner)
                lo = {"k": "for", "p": p, "e": outer, "b": block(ib["b"]["st"][:-1] + [push(ib["b"]["st"][-1]["e"])] if ib["k"] == "blocke" else [push(inner)])}
                t_ = (ty or "").strip()
                return blocke([let(v, call("Vec::new"), True, t_ if t_ and "_" not in t_ else None), st(self.expr(lo)), st(path(v), False)])
        c = self.chain(e["e"])
        if c is None:
            return None
        if m == "collect":
            t = (e.get("tf") or "") + " " + (ty or "")
            res = "Result" in t or e.get("res", False)
            k, setup, init, pre, el = self.source_loop(c)
            v, er = "_v%d" % k, "_e%d" % k
            if not res:
                body = pre + [st(mcall(path(v), "push", el))]
                return blocke([let(v, call("Vec::new"), True)] + self.mkloop(k, setup, init, body, tag="collect") + [st(path(v), False)])
            arm = {"k": "match", "e": el, "arms": [
                {"k": "arm", "p": {"k": "tstruct", "p": "Ok", "e": [{"k": "id", "n": "_x", "mut": False, "ref": False, "sub": None}]}, "g": None, "b": blocke([st(mcall(path(v), "push", path("_x")))])},
                {"k": "arm", "p": {"k": "tstruct", "p": "Err", "e": [{"k": "id", "n": "_x", "mut": False, "ref": False, "sub": None}]}, "g": None,
                 "b": blocke([st({"k": "assign", "l": path(er), "r": call("Some", path("_x"))})])}]}
            fin = {"k": "match", "e": path(er), "arms": [
                {"k": "arm", "p": {"k": "tstruct", "p": "Some", "e": [{"k": "id", "n": "_x", "mut": False, "ref": False, "sub": None}]}, "g": None, "b": call("Err", path("_x"))},
                {"k": "arm", "p": {"k": "path", "p": "None"}, "g": None, "b": call("Ok", path(v))}]}
            return blocke([let(v, call("Vec::new"), True), let(er, path("None"), True)] +
                          self.mkloop(k, setup, init, pre + [st(arm)], mcall(path(er), "is_none"), tag="try_collect") + [st(fin, False)])
        if m in ("any", "all") and len(e["a"]) == 1:
            k, setup, init, pre, el = self.source_loop(c + [("map", e["a"][0])])
            b = "_b%d" % k
            any_ = m == "any"
            body = pre + [st({"k": "if", "c": el if any_ else {"k": "un", "op": "!", "e": paren(el)}, "t": block([st({"k": "assign", "l": path(b), "r": path("true" if any_ else "false")})]), "e": None})]
            cond = {"k": "un", "op": "!", "e": path(b)} if any_ else path(b)
            return blocke([let(b, path("false" if any_ else "true"), True)] + self.mkloop(k, setup, init, body, cond, tag=m) + [st(path(b), False)])
        if m == "find" and len(e["a"]) == 1 and strip(e["a"][0])["k"] == "closure" and len(strip(e["a"][0])["p"]) == 1:
            f = strip(e["a"][0])
            k, setup, init, pre, el = self.source_loop(c)
            b, x = "_b%d" % k, "_x%d" % k
            body = pre + [let(x, el)] + self.bind(f["p"][0], path(x) if f["p"][0]["k"] == "ref" else ref(path(x))) + [st({"k": "if", "c": self.expr(f["b"]), "t": block([st({"k": "assign", "l": path(b), "r": call("Some", path(x))})]), "e": None})]
            return blocke([let(b, path("None"), True)] + self.mkloop(k, setup, init, body, mcall(path(b), "is_none"), tag="find") + [st(path(b), False)])
        if m == "count" and not e["a"]:
            flt = None
            if c[-1][0] == "filter": flt = strip(c[-1][1]); c = c[:-1]
            k, setup, init, pre, el = self.source_loop(c)
            b = "_c%d" % k
            inc = st({"k": "bin", "op": "+=", "l": path(b), "r": lit("1usize")})
            if flt is None:
                body = pre + [inc]
            else:
                if flt["k"] != "closure" or len(flt["p"]) != 1: raise Unsupported("filter argument")
                body = pre + self.bind(flt["p"][0], el if flt["p"][0]["k"] == "ref" else ref(el)) + [st({"k": "if", "c": self.expr(flt["b"]), "t": block([inc]), "e": None})]
            return blocke([let(b, lit("0usize"), True)] + self.mkloop(k, setup, init, body, tag="count") + [st(path(b), False)])
        if m == "max" and not e["a"]:
            k, setup, init, pre, el = self.source_loop(c)
            b = "_m%d" % k
            body = pre + [let("_x", el), raw("%s = match %s { Some(_o) => Some(if _x < _o { _o } else { _x }), None => Some(_x) };" % (b, b))]
            return blocke([let(b, path("None"), True)] + self.mkloop(k, setup, init, body, tag="max") + [st(path(b), False)])
        return None

    # ---- combinators of an Option (of a call known to give one)
    def is_option(self, e):
        e = strip(e)
        if e["k"] == "call" and e["f"].get("p") in ("v_next",): return True
        if e["k"] != "mcall": return False
        if e["m"] in ("get_pixel_optional", "first", "last", "checked_add", "checked_sub", "checked_mul", "checked_div", "ok"): return True
        return e["m"] in ("filter", "map", "and_then", "or", "or_else", "cloned", "copied") and self.is_option(e["e"])

    def option_combinator(self, e):
        m, f = e["m"], strip(e["a"][-1])
        if any(x.get("k") in ("return", "try") for x in walk(f["b"])) or len(f["p"]) != (0 if m in ("or_else", "ok_or_else") else 1): return None
        some = lambda p, b: {"k": "arm", "p": {"k": "tstruct", "p": "Some", "e": [p]}, "g": None, "b": b}
        none = lambda b: {"k": "arm", "p": {"k": "path", "p": "None"}, "g": None, "b": b}
        x = {"k": "id", "n": "_x", "mut": False, "ref": False, "sub": None}
        body = self.expr(f["b"])
        if m == "ok_or_else": arms = [some(x, call("Ok", path("_x"))), none(call("Err", body))]
        elif m == "or_else": arms = [some(x, call("Some", path("_x"))), none(body)]
        elif m == "filter":
            p = f["p"][0]
            if p["k"] != "id": return None
            arms = [some(x, blocke([let(p["n"], {"k": "rawe", "t": "&_x"}), st({"k": "if", "c": body, "t": block([st(call("Some", path("_x")), False)]), "e": blocke([st(path("None"), False)])}, False)])), none(path("None"))]
        elif m == "map": arms = [some(f["p"][0], call("Some", body)), none(path("None"))]
        elif m == "and_then": arms = [some(f["p"][0], body), none(path("None"))]
        elif m == "map_or" and len(e["a"]) == 2: arms = [some(f["p"][0], body), none(self.expr(e["a"][0]))]
        elif m == "is_some_and": arms = [some(f["p"][0], body), none(path("false"))]
        elif m == "is_none_or": arms = [some(f["p"][0], body), none(path("true"))]
        else: return None
        return {"k": "match", "e": self.expr(e["e"]), "arms": arms}

    # ---- expressions
    def expr(self, e, ty=None):
        k = e["k"]
        if k == "mcall":
            if e["m"] in self.SINK:
                s = self.sink(e, ty)
                if s is not None:
                    return s
            if e["m"] == "map" and len(e["a"]) == 1:
                r = strip(e["e"])
                f = strip(e["a"][0])
                if f["k"] == "closure" and (r["k"] == "path" and r["p"] in self.results or r["k"] == "call" and r["f"].get("p") in self.results):
                    return {"k": "match", "e": self.expr(r), "arms": [
                        {"k": "arm", "p": {"k": "tstruct", "p": "Ok", "e": [f["p"][0]]}, "g": None, "b": call("Ok", self.expr(f["b"]))},
                        {"k": "arm", "p": {"k": "tstruct", "p": "Err", "e": [{"k": "id", "n": "_x", "mut": False, "ref": False, "sub": None}]}, "g": None, "b": call("Err", path("_x"))}]}
            if e["m"] in OPTION_COMBINATORS and e["a"] and strip(e["a"][-1])["k"] == "closure" and self.is_option(e["e"]):
                o = self.option_combinator(e)
                if o is not None: return o
            if e["m"] == "unwrap_or_else" and len(e["a"]) == 1 and strip(e["a"][0])["k"] == "closure" and not strip(e["a"][0])["p"] and not any(x.get("k") in ("return", "try") for x in walk(strip(e["a"][0])["b"])):
                return {"k": "match", "e": self.expr(e["e"]), "arms": [
                    {"k": "arm", "p": {"k": "tstruct", "p": "Some", "e": [{"k": "id", "n": "_x", "mut": False, "ref": False, "sub": None}]}, "g": None, "b": path("_x")},
                    {"k": "arm", "p": {"k": "path", "p": "None"}, "g": None, "b": self.expr(strip(e["a"][0])["b"])}]}
            if e["m"] == "map_err" and len(e["a"]) == 1 and strip(e["a"][0])["k"] == "closure":
                f = strip(e["a"][0])
                return {"k": "match", "e": self.expr(e["e"]), "arms": [
                    {"k": "arm", "p": {"k": "tstruct", "p": "Ok", "e": [{"k": "id", "n": "_x", "mut": False, "ref": False, "sub": None}]}, "g": None, "b": call("Ok", path("_x"))},
                    {"k": "arm", "p": {"k": "tstruct", "p": "Err", "e": [f["p"][0]]}, "g": None, "b": call("Err", self.expr(f["b"]))}]}
            if e["m"] == "map_err" and len(e["a"]) == 1 and strip(e["a"][0])["k"] == "path":
                return {"k": "match", "e": self.expr(e["e"]), "arms": [
                    {"k": "arm", "p": {"k": "tstruct", "p": "Ok", "e": [{"k": "id", "n": "_x", "mut": False, "ref": False, "sub": None}]}, "g": None, "b": call("Ok", path("_x"))},
                    {"k": "arm", "p": {"k": "tstruct", "p": "Err", "e": [{"k": "id", "n": "_x", "mut": False, "ref": False, "sub": None}]}, "g": None, "b": call("Err", call(strip(e["a"][0])["p"], path("_x")))}]}
            if e["m"] in ("to_be_bytes", "to_ne_bytes", "to_string", "to_owned") and not e["a"]:
                e = dict(e, m="v_" + e["m"])
            if e["m"] in ("clamp", "min", "max", "to_vec", "saturating_add", "saturating_sub", "extend_from_slice", "cloned", "copied", "unwrap_or_default") and (e["a"] or e["m"] not in ("clamp", "min", "max")):
                e = dict(e, m="v_" + e["m"].replace("copied", "cloned"))
        if k == "mcall" and e["m"] == "fold" and len(e["a"]) == 2:
            u = self.unrolled_fold(e)
            if u is not None: return u
            f = strip(e["a"][1])
            c = self.chain(e["e"]) if f["k"] == "closure" and len(f["p"]) == 2 and all(p["k"] == "id" for p in f["p"]) and not any(x.get("k") in ("return", "try") for x in walk(f["b"])) else None
            if c is not None:
                # L14: a fold over an iterator chain is the loop that carries the accumulator
                i0 = self.expr(e["a"][0])
                k, setup, init, pre, el = self.source_loop(c)
                a = "_a%d" % k
                body = pre + [let("_q", el), let(f["p"][0]["n"], path(a)), let(f["p"][1]["n"], path("_q")), st({"k": "assign", "l": path(a), "r": self.expr(f["b"])})]
                return blocke([let(a, i0, True)] + self.mkloop(k, setup, init, body, tag="fold") + [st(path(a), False)])
        if k == "mcall" and e["m"] == "unwrap" and not e["a"]:
            v = self.expr(e["e"])
            return okval(v) or dict(e, e=v)
        if k == "mcall" and "." + e["m"] in self.inline:
            return self.inlined_call({"k": "call", "f": path("." + e["m"]), "a": e["a"]}, recv=e["e"])
        if k == "call":
            f = e["f"]
            if f["k"] == "path":
                if f["p"] in self.fm:
                    return mcall(f, "call", *[self.expr(a) for a in e["a"]])
                if f["p"] == "Default::default":
                    return call("vdefault")
                if gstrip(f["p"])[0] in self.inline:
                    return self.inlined_call(e)
        if k == "macro":
            n = e["n"]
            if n in ("panic", "unreachable", "unimplemented", "todo"):
                return call("vpanic")
            if n in ("assert", "debug_assert"):
                return {"k": "if", "c": {"k": "un", "op": "!", "e": paren(self.expr(e["a"][0]))}, "t": block([st(call("vpanic"))]), "e": None}
            if n in ("assert_eq", "assert_ne"):
                return {"k": "if", "c": binop("!=" if n == "assert_eq" else "==", self.expr(e["a"][0]), self.expr(e["a"][1])), "t": block([st(call("vpanic"))]), "e": None}
            if n == "vec" and "rep" in e and strip(e["rep"][0])["k"] == "macro" and strip(e["rep"][0])["n"] == "vec" and "rep" in strip(e["rep"][0]):
                r2 = strip(e["rep"][0])["rep"]
                return call("vec_rep2", self.expr(r2[0]), self.expr(r2[1]), self.expr(e["rep"][1]))
            if n == "vec" and "rep" in e:
                return call("vec_rep", self.expr(e["rep"][0]), self.expr(e["rep"][1]))
            if n == "vec" and "a" in e:
                return {"k": "macro", "n": "vec", "a": [self.expr(a) for a in e["a"]]}
            if n == "format":
                # the text of a message: its arguments are only printed
                return call("v_format")
            if n == "matches":
                return {"k": "rawe", "t": "matches!(%s)" % e["t"]} if "t" in e else e
            raise Unsupported("macro " + n)
        if k == "try" and getattr(self, "opt", False):
            return {"k": "match", "e": self.expr(e["e"]), "arms": [
                {"k": "arm", "p": {"k": "tstruct", "p": "Some", "e": [{"k": "id", "n": "_t", "mut": False, "ref": False, "sub": None}]}, "g": None, "b": path("_t")},
                {"k": "arm", "p": {"k": "path", "p": "None"}, "g": None, "b": {"k": "return", "e": path("None")}}]}
        if k == "try":
            return {"k": "match", "e": self.expr(e["e"]), "arms": [
                {"k": "arm", "p": {"k": "tstruct", "p": "Ok", "e": [{"k": "id", "n": "_t", "mut": False, "ref": False, "sub": None}]}, "g": None, "b": path("_t")},
                {"k": "arm", "p": {"k": "tstruct", "p": "Err", "e": [{"k": "id", "n": "_t", "mut": False, "ref": False, "sub": None}]}, "g": None, "b": {"k": "return", "e": call("Err", path("_t"))}}]}
        if k == "for":
            return self.forloop(e)
        if k == "while" or k == "loop":
            r = dict(e, b=self.block(e["b"]), loop=self.n, tag=k, k="while")
            r["c"] = self.expr(e["c"]) if k == "while" else lit("true")
            self.n += 1
            self.loops.append(r)
            return r
        if k == "closure":
            return dict(e, b=self.expr(e["b"]))
        if k == "blocke":
            return dict(e, b=self.block(e["b"]))
        if k == "if":
            return dict(e, c=self.expr(e["c"]), t=self.block(e["t"]), e=self.expr(e["e"]) if e["e"] else None)
        if k == "match":
            return dict(e, e=self.expr(e["e"]), arms=[dict(a, g=self.expr(a["g"]) if a["g"] else None, b=self.expr(a["b"])) for a in e["arms"]])
        if k == "struct":
            return dict(e, f=[[a, self.expr(b)] for a, b in e["f"]], rest=self.expr(e["rest"]) if e["rest"] else None)
        # generic descent
        r = {}
        for n, v in e.items():
            if isinstance(v, dict) and "k" in v:
                r[n] = self.expr(v)
            elif isinstance(v, list) and v and all(isinstance(x, dict) for x in v):
                r[n] = [self.expr(x) for x in v]
            else:
                r[n] = v
        return r

    def unrolled_fold(self, e):
        """L9: a fold over a constant range of an array is the nesting it abbreviates"""
        it = strip(e["e"])
        while it["k"] == "mcall" and it["m"] in ("cloned", "copied") and not it["a"]: it = strip(it["e"])
        if not (it["k"] == "mcall" and it["m"] == "iter" and not it["a"]): return None
        x = strip(it["e"])
        if not (x["k"] == "index" and strip(x["i"])["k"] == "range"): return None
        r = strip(x["i"])
        num = lambda n, d: d if n is None else int(re.match(r"^(\d+)(?:usize)?$", strip(n)["t"]).group(1)) if strip(n)["k"] == "lit" and re.match(r"^(\d+)(?:usize)?$", strip(n)["t"]) else None
        a, b = num(r["l"], 0), num(r["r"], None)
        if a is None or b is None or b - a > 8: return None
        if r["incl"]: b += 1
        acc = self.expr(e["a"][0])
        f = e["a"][1]
        for i in range(a, b):
            el = idx(self.expr(x["e"]), lit(str(i)))
            if f["k"] == "path" and f["p"].replace(" ", "") in ("f32::max", "f32::min", "f64::max", "f64::min"):
                acc = mcall(acc if acc["k"] in ("lit", "mcall", "path") else paren(acc), "v_" + f["p"].replace(" ", "")[5:], el)
            elif f["k"] == "closure" and len(f["p"]) == 2 and all(p["k"] == "id" for p in f["p"]):
                n1, n2 = f["p"][0]["n"], f["p"][1]["n"]
                acc = blocke([let(n1, acc), let(n2, el), st(self.expr(f["b"]), False)])
            else: return None
        return acc

    def forloop(self, e):
        it = strip(e["e"])
        fl = self.flat_parts(it)
        if fl is not None:
            if any(x.get("k") in ("continue", "break") for x in walk(e["b"])): raise Unsupported("break out of a flattened loop")
            return self.forloop({"k": "for", "p": fl[1], "e": fl[0], "b": block([{"k": "expr", "e": {"k": "for", "p": e["p"], "e": fl[2], "b": e["b"], "label": None}, "semi": True}]), "label": None})
        if it["k"] == "ref":
            c = [("iter_mut" if it["mut"] else "iter", it["e"])]
        else:
            c = self.chain(it)
        if c is None and it["k"] in ("path", "field") or c is None and it["k"] == "mcall" and it["m"] == "data":
            c = [("iter", it)]
        if c is None:
            raise Unsupported("for over " + ue(it)[:60])
        if any(x.get("k") == "continue" for x in walk(e["b"])):
            raise Unsupported("continue")
        k, setup, init, pre, el = self.source_loop(c)
        binds = pre + self.bind(e["p"], el)
        blk = e["b"]
        for b in list(binds):
            # L7: an element variable over rows (`row.iter_mut()`, `row.copy_from_slice(..)`) stands for the place it borrows
            if b["k"] == "let" and b["p"]["k"] == "id" and b["e"] and b["e"]["k"] == "ref" and b["e"]["mut"]:
                n = b["p"]["n"]
                rowlike = any(x.get("k") == "mcall" and x["m"] in ("iter_mut", "copy_from_slice", "fill", "swap") and deref(x["e"]) == n for x in walk(blk)) or \
                    any(x.get("k") == "index" and deref(x["e"]) == n for x in walk(blk)) or any(x.get("k") == "for" and deref(x["e"]) == n for x in walk(blk))
                if rowlike:
                    if n in [i for x in walk(blk) for i in (pat_ids(x["p"]) if x.get("k") in ("let", "for", "closure") and isinstance(x.get("p"), dict) else [])]:
                        raise Unsupported("shadowed row variable")
                    place = b["e"]["e"]
                    binds.remove(b)

                    def al(x, n=n, place=place):
                        if x.get("k") == "un" and x["op"] == "*" and x["e"].get("k") == "path" and x["e"]["p"] == n: return copy.deepcopy(place)
                        return x

                    def al2(x, n=n, place=place):
                        if x.get("k") == "path" and x["p"] == n: return copy.deepcopy(place)
                        if x.get("k") == "for" and strip(x["e"]) == place: return dict(x, e=mcall(x["e"], "iter_mut"))
                        return x
                    blk = rewrite(rewrite(blk, al), al2)
        body = binds + [self.stmt(s) for s in blk["st"]]
        for s in body:
            if s["k"] == "expr" and s["e"]["k"] not in ("if", "match", "while", "for", "blocke"): s["semi"] = True
        return blocke(self.mkloop(k, setup, init, body))

    def inlined_call(self, e, recv=None):
        key, targs = gstrip(e["f"]["p"])
        f, ci, *known = self.inline[key]
        f = copy.deepcopy(f)
        gens = [g.split(":")[0].replace("const ", "").strip() for g in split_top(f["generics"][1:-1])] if f["generics"] else []
        gmap = {g: t for g, t in zip(gens, targs) if t != "_"} if targs else dict(known[0]) if known else {}

        def gsub(t):
            return re.sub(r"\b(%s)\b" % "|".join(gmap), lambda m: gmap[m.group(1)], t) if gmap else t
        clo = strip(e["a"][ci])
        if clo["k"] != "closure":
            raise Unsupported("argument of %s is not a closure" % e["f"]["p"])
        if any(x.get("k") in ("return", "try") for x in walk(clo["b"])):
            raise Unsupported("return inside a closure")
        if recv is not None:
            if strip(recv)["k"] in ("mcall", "call"):
                # a temporary
                self.rcv = getattr(self, "rcv", 0) + 1
                t = "_rcv%d" % self.rcv
                return blocke([let(t, self.expr(recv)), st(self.inlined_call(e, path(t)), False)])
            if strip(recv)["k"] != "path": raise Unsupported("receiver of an inlined method")
            f["body"] = rewrite(f["body"], lambda n: path("__recv__") if n.get("k") == "path" and n["p"] == "self" else n)
            f["params"] = [p for p in f["params"] if not p["self"]]
        names = [p["p"]["n"] for p in f["params"]]
        fn = names[ci]
        bref = []
        for g in (split_top(f["generics"][1:-1]) if f["generics"] else []) + (split_top(f["where"].strip()[5:]) if f["where"] else []):
            m_ = re.match(r"^(\w+)\s*:\s*Fn(?:Mut|Once)?\s*\((.*)\)\s*(?:->.*)?$", g.strip(), re.S)
            if m_ and m_.group(1) == f["params"][ci]["ty"].strip(): bref = [x.strip().startswith("&") and not re.match(r"^&\s*mut\b", x.strip()) for x in split_top(m_.group(2))]
        pre = [let("_a_" + n, self.expr(a)) for j, (n, a) in enumerate(zip(names, e["a"])) if j != ci]
        bindp = [let(n, path("_a_" + n)) for j, n in enumerate(names) if j != ci]
        # hygiene: names bound by the combinator must not capture names the closure uses
        used = {x["p"] for x in walk(clo["b"]) if x.get("k") == "path"}
        bound = set(names) | {i for s in walk(f["body"]) if s.get("k") == "let" for i in pat_ids(s["p"])} | {i for c in walk(f["body"]) if c.get("k") == "closure" for p in c["p"] for i in pat_ids(p)}
        clash = (used & bound) - set(i for p in clo["p"] for i in pat_ids(p))
        ren = {c: "_h_" + c for c in bound}
        # mutable locals of the inlined function, in order (contract token @h_<function>_<i>)
        self.hmuts.setdefault(f["name"], [ren[x["n"]] for s in walk(f["body"]) if s.get("k") == "let" for x in walk(s["p"]) if x.get("k") == "id" and x.get("mut")])

        def r(n):
            if n.get("k") == "path" and n["p"] in ren: return dict(n, p=ren[n["p"]])
            if n.get("k") == "id" and n["n"] in ren: return dict(n, n=ren[n["n"]])
            if n.get("k") == "struct":
                return n
            return n
        body = rewrite(f["body"], r)
        bindp = [let(ren[n], path("_a_" + n)) for j, n in enumerate(names) if j != ci]

        def untype(n):
            # types of the inlined body's locals are inferred from the caller (its own generic parameters do not exist there)
            if n.get("k") == "let" and n.get("ty"):
                if "Result" in n["ty"]: self.results |= set(pat_ids(n["p"])); n = dict(n, e=mark_collect(n["e"]))
                return dict(n, ty=None)
            return n
        sv = self.results
        if not gmap: body = rewrite(body, untype)
        else:
            # generic arguments of the instance
            body = rewrite(body, lambda n: dict(n, p=gsub(n["p"])) if n.get("k") == "path" else dict(n, ty=gsub(n["ty"])) if n.get("k") == "let" and n.get("ty") else n)

        def sub(n):
            if n.get("k") == "call" and n["f"].get("k") == "path" and n["f"]["p"] == ren[fn]:
                b = []
                for j, (p, a) in enumerate(zip(clo["p"], n["a"])):
                    # a shared reference parameter reborrows
                    if j < len(bref) and bref[j] and a.get("k") == "path": a = ref({"k": "un", "op": "*", "e": a})
                    b += self.bind(p, a)
                return blocke(b + [st(copy.deepcopy(clo["b"]), False)])
            if n.get("k") == "path" and n["p"] == "Self": return n
            return n
        body = rewrite(body, sub)
        if any(x.get("k") == "path" and x["p"] == ren[fn] for x in walk(body)):
            # passed on as a value: f -> closure (e.g. .map(func))
            def sub2(n):
                if n.get("k") == "path" and n["p"] == ren[fn]: return copy.deepcopy(clo)
                return n
            body = rewrite(body, sub2)
        # `?` on a value that is an Ok by its form is that value
        body = rewrite(body, lambda n: okval(n["e"]) or n if n.get("k") == "try" else n)
        owner = f["owner"]
        if recv is not None: body = rewrite(body, lambda n: copy.deepcopy(strip(recv)) if n.get("k") == "path" and n["p"] == "__recv__" else n)
        body = rewrite(body, lambda n: dict(n, p=n["p"].replace("Self", owner)) if n.get("k") == "struct" and n["p"] == "Self" else n)
        if owner == "Rgb": body = rewrite(body, lambda n: dict(n, p="Rgb" + n["p"][4:]) if n.get("k") == "path" and n["p"].startswith("Self::") else n)
        self.results = self.results | {ren.get(x, x) for x in ["data"]}
        b = self.block(body)
        self.results = sv
        r = blocke(pre + bindp + b["st"])
        if gmap and f["ret"]:
            return blocke([let("_r", r, ty=gsub(f["ret"].strip())), st(path("_r"), False)])
        return r

    def stmt(self, s):
        k = s["k"]
        if k == "let":
            if s["ty"] and "Result" in s["ty"]:
                self.results |= set(pat_ids(s["p"]))
            r = dict(s, e=self.expr(s["e"], s["ty"]) if s["e"] else None)
            if s.get("else"): r["else"] = self.expr(s["else"])
            return r
        if k == "expr":
            return dict(s, e=self.expr(s["e"]))
        if k == "raw":
            return s
        if k == "item" and s["t"].lstrip().startswith("use "):
            return raw("")
        raise Unsupported("statement " + k)

    def local_closures(self, b):
        """L8: a closure bound to a local and only ever called is inlined at its calls"""
        sts = list(b["st"])
        i = 0
        while i < len(sts):
            s = sts[i]
            if s["k"] == "let" and s["p"]["k"] == "id" and not s["p"]["mut"] and s["e"] is not None and strip(s["e"])["k"] == "closure":
                n, clo = s["p"]["n"], strip(s["e"])
                rest = sts[i + 1:]
                calls = [x for x in walk(rest) if x.get("k") == "call" and x["f"].get("k") == "path" and x["f"]["p"] == n]
                uses = [x for x in walk(rest) if x.get("k") == "path" and x["p"] == n]
                rebound = any(n in pat_ids(x["p"]) for x in walk(rest) if x.get("k") == "let") or any(n in pat_ids(q) for x in walk(rest) if x.get("k") == "closure" for q in x["p"])
                # names the closure uses must mean the same at its calls
                free = {x["p"] for x in walk(clo["b"]) if x.get("k") == "path"} - {y for q in clo["p"] for y in pat_ids(q)}
                later = {y for x in walk(rest) if x.get("k") == "let" for y in pat_ids(x["p"])} | {y for x in walk(rest) if x.get("k") in ("for", "closure") for y in pat_ids(x["p"])}
                if len(calls) == len(uses) and calls and not rebound and not (free & later) and not any(x.get("k") in ("return", "try") for x in walk(clo["b"])):
                    def sub(x, n=n, clo=clo):
                        if x.get("k") == "call" and x["f"].get("k") == "path" and x["f"]["p"] == n:
                            bs = []
                            for j, (p, a) in enumerate(zip(clo["p"], x["a"])):
                                p = p["e"] if p["k"] == "typed" else p
                                if p["k"] == "wild": bs.append(letp(p, a)); continue
                                if p["k"] != "id": raise Unsupported("closure parameter")
                                bs.append(let("_l%d" % j, a))
                            bs += [let((p["e"] if p["k"] == "typed" else p)["n"], path("_l%d" % j), ty=p["ty"] if p["k"] == "typed" else None) for j, p in enumerate(clo["p"]) if (p["e"] if p["k"] == "typed" else p)["k"] == "id"]
                            return blocke(bs + [st(copy.deepcopy(clo["b"]), False)])
                        return x
                    sts = sts[:i] + rewrite(rest, sub)
                    continue
            i += 1
        return dict(b, st=sts)

    def block(self, b):
        b = self.local_closures(b)
        return dict(b, st=[self.stmt(s) for s in b["st"]])
