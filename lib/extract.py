"""Mechanical extraction: items of a /repo source file, cut out verbatim by byte offsets (vx), with `pub` added
to free functions.  Nothing else is changed; what is not extracted is named by the caller."""
import os, re
import native


def read(rel):
    return open(os.path.join(native.REPO, rel), "rb").read()


def closure(rel, roots, types=(), impls=()):
    """roots: free functions.  Adds every free function / const of the file they mention, transitively."""
    src = read(rel)
    d = native.vx(os.path.join(native.REPO, rel))
    if d is None:
        raise LookupError("%s does not parse" % rel)
    cut = lambda s: src[s[0]:s[1]].decode()
    free = {f["name"]: f for f in d["fns"] if not f["owner"] and "::" not in f["owner"]}
    consts = {c["name"]: c for c in d["consts"] if not c["owner"]}
    tys = {t["name"]: t for t in d["types"]}
    for r in roots:
        if r not in free:
            raise LookupError("%s: function %s not found (anchor lost)" % (rel, r))
    out, done, todo = [], set(), list(roots)
    text = []
    for t in types:
        if t not in tys:
            raise LookupError("%s: type %s not found (anchor lost)" % (rel, t))
        text.append(cut(tys[t]["span"]))
        done.add(t)
    for i in impls:
        parts = [cut(f["whole"]) for f in d["fns"] if f["owner"] == i and not f["trait"]]
        parts += [cut(c["span"]) for c in d["consts"] if c["owner"] == i]
        if not parts:
            raise LookupError("%s: impl %s not found (anchor lost)" % (rel, i))
        text.append("impl %s {\n%s\n}" % (i, "\n".join(parts)))

    def mentions(t):
        return [w for w in re.findall(r"\b[A-Za-z_]\w*\b", t)]
    for t in text:
        todo += [w for w in mentions(t) if w in free or w in consts]
    while todo:
        n = todo.pop(0)
        if n in done:
            continue
        done.add(n)
        if n in free:
            t = cut(free[n]["whole"])
            t = re.sub(r"^((?:\s*(?:///[^\n]*\n|#\[[^\]]*\]))*\s*)(pub(?:\([^)]*\))?\s+)?", r"\1pub ", t, count=1)
        else:
            t = cut(consts[n]["span"])
        text.append(t)
        todo += [w for w in mentions(t) if (w in free or w in consts) and w not in done]
    return "\n\n".join(text) + "\n"
