"""The Verus engine: contracts woven into /repo's current functions, one query per function, all inputs, no bound."""
import concurrent.futures as cf, hashlib, json, os, re, time
import native, rast, weave
from rast import Unsupported
import vcore, vops, vgeo, vimg, vnan, vnoise, vcmd, vpal, vcol, vcodec, vfilt, vadj, vblend, vfmt, vpy, vcli, viter

BASE = os.path.join(native.VERIF, "lib", "skeleton.json")


class VU:
    """one verification unit: alternatives (contract styles for differently written loops), of which one must be discharged"""
    def __init__(self, label, alts, mode="B", plain=False, tables=False):
        """plain: the loop-free functions of the unit are decided by equality and case analysis alone, whatever way they are written;
        tables: the lemmas of the prelude are about constants read from the source, so that a lemma that fails is a failed obligation"""
        self.tables = tables
        self.label, self.alts, self.mode, self.plain = label, alts, mode, plain


def one(f, *a):
    return lambda: iter([f(*a)])


def units(pid):
    return UNITS.get(pid, [])


UNITS = {
    "C01": [VU("constructors, panics end the run", one(vcore.unit_new, "A"), "A"), VU("constructors, no panic on valid requests", one(vcore.unit_new, "B"))],
    "C02": [VU("pixel access, panics end the run", one(vcore.unit_pixels, "A"), "A"), VU("pixel access, no panic inside the image", one(vcore.unit_pixels, "B"))],
    "C03": [VU("map/mod/convert", one(vcore.unit_maps, "A"), "A"), VU("colour iterators", viter.unit, "A", True)],
    "C04": [VU(n, vops.unit_perm(n)) for n in vops.PERM],
    "C05": [VU("crop", vops.unit_crop)],
    "C06": [VU(n, vops.unit_kernel(n)) for n in ("get_kernel", "get_kernel_dyn")] + [VU("convolution, run-time size", vops.unit_conv_dyn, "A"), VU("convolution, fixed size", vops.unit_conv, "A")],
    "C07": [VU("compose %d" % k, vops.unit_compose(k), "A") for k in range(4)] + [VU("blend_image", vops.unit_blend, "A")],
    "C08": [VU("interlace", vops.unit_interlace)],
    "C09": [VU("resize: dimensions, nearest, uniform images", vgeo.unit_resize), VU("rotate: dimensions, nearest, uncovered pixels", vgeo.unit_rotate)],
    "C10": [VU("constructors and per-channel adjustments over the reals", vadj.unit_channels, tables=True), VU("adjustments through HSL over the reals", vadj.unit_hsl, tables=True)],
    "C12": [VU("HSL and HSV over the reals", vcol.unit12, "A", tables=True)],
    "C13": [VU("YUV, XYZ, Lab, LCh round trips over the reals", vcol.unit13, "A", tables=True)],
    "C14": [VU("per-channel blends over the reals", vblend.unit_channels), VU("HSL blends over the reals", vblend.unit_hsl, tables=True), VU("LCH blends over the reals", vblend.unit_lch, tables=True)],
    "C15": [VU("transfer functions over the reals", vcol.unit15, "A", tables=True)],
    "C16": [VU("quantisation over the reals", vcodec.unit16, "A", tables=True)],
    "C17": [VU("sample packing and encode_png", vcodec.unit_png_enc, "B", True), VU("encode_bmp", vcodec.unit_img_enc("bmp"), "B", True), VU("encode_ico", vcodec.unit_img_enc("ico"), "B", True), VU("32-bit packing", vcodec.unit_argb),
            VU("decode_png", vcodec.unit_png_dec), VU("read_into_buffer, decode_bmp, decode_ico", vcodec.unit_img_dec), VU("decode_webp", vcodec.unit_webp_dec), VU("encode_webp", vcodec.unit_webp_enc), VU("PNG layouts there and back", vcodec.unit_png_rt, tables=True)],
    "C18": [VU("formats by file name; the codec of a format is the one used", vfmt.unit, "A", True)],
    "C19": [VU("commands, execute, Queue::run", vcmd.unit_exec, "A", True), VU("queue builders", vcmd.unit_builders, "A", True)],
    "C20": [VU("noise over images, every random source", vnoise.unit, tables=True)],
    "C22": [VU("gaussian kernel", vfilt.unit_gauss(False)), VU("gaussian kernel, run-time size", vfilt.unit_gauss(True)), VU("gaussian_blur", vfilt.unit_blur), VU("unsharp", vfilt.unit_unsharp), VU("despeckle", vfilt.unit_despeckle),
            VU("symmetric_nearest_neighbor", vfilt.unit_snn), VU("edge_detection", vnan.unit_edge, tables=True), VU("drawing", vnan.unit_drawing, tables=True), VU("equalize", vnan.unit_equ, tables=True), VU("stretch_contrast", vnan.unit_stretch, tables=True),
            VU("balance", vnan.unit_bal, tables=True), VU("colour temperature", vnan.unit_temp, tables=True), VU("saturation", vnan.unit_sat, tables=True), VU("lightness", vnan.unit_light, tables=True)],
    "C23": [VU("nearest palette colour, copying and in-place form", vpal.unit, "A")],
    "C24": [VU("constructors and accessors", vimg.unit_ctor, "A", True), VU("colour mapping methods", vimg.unit_maps, "A", True), VU("operation methods", vimg.unit_ops, "A", True), VU("resize by percentage", vimg.unit_pct, "A"), VU("compose methods", vimg.unit_compose, "A", True), VU("opening and saving", vimg.unit_io, "A", True)],
    "C25": [VU("image methods and format constructors", vpy.unit, "A", True)] + [VU("colour class " + t, one(vpy.unit_color, t), "A", True) for t in vpy.TYPES],
    "C28": [VU("names of " + e[1], one(vpy.unit_name, e), "A", True) for e in vpy.NAMES],
    "C29": [VU("arguments, options, main", vcli.unit, "A", True)],
    "C27": [VU("new_gaussian", vfilt.unit_gauss(False)), VU("new_gaussian, run-time size", vfilt.unit_gauss(True)), VU("gaussian_blur", vfilt.unit_blur), VU("unsharp", vfilt.unit_unsharp),
            VU("despeckle", vfilt.unit_despeckle), VU("symmetric_nearest_neighbor", vfilt.unit_snn)],
    "C21": [VU("has_transparency, is_grayscale of buffers", one(vcore.unit_tol, "A"), "A")],
}

GENERAL = [
    "Verus: soundness of Verus 0.2026.09.13, its vstd library and Z3",
    "Verus: the weaver regenerates each function from /repo's syntax tree; lowering L1-L14 of lib/rast.py (iterator chains to index loops, panics, callables, ?, std helpers, inlined combinators) is trusted to preserve meaning",
    "Verus: usize is 64 bits; overflow of machine integers is checked as an obligation, so build profiles with and without overflow checks agree",
]


# ------------------------------------------------------------------ statement skeleton
CTRL = ("if", "match", "while", "loop", "for", "return", "break", "continue", "closure", "macro", "try", "assign")


def skel(file, name, owner="", trait=None, impl=None):
    try:
        f = rast.find(file, name, owner, trait, impl)
    except Unsupported:
        return None
    out = []

    def go(n):
        if isinstance(n, list):
            for x in n: go(x)
            return
        if not isinstance(n, dict): return
        k = n.get("k")
        if k == "let": out.append("let")
        elif k in CTRL: out.append(k + (":" + n["n"] if k == "macro" else ""))
        elif k == "call" and n["f"].get("k") == "path": out.append("call:" + n["f"]["p"].split("::")[-1])
        elif k == "mcall": out.append("m:" + n["m"])
        elif k == "struct": out.append("struct")
        elif k == "index": out.append("index")
        for key, v in n.items():
            if isinstance(v, (dict, list)): go(v)
    go(f["body"])
    return out


def subseq(a, b):
    it = iter(b)
    return all(x in it for x in a)


def fnkey(c):
    return "%s|%s|%s|%s|%s" % (c.file, c.owner, c.name, c.trait or "", c.impl or "")


def all_fns():
    seen = {}
    for pid, us in UNITS.items():
        for u in us:
            for un in u.alts():
                for c in un.fns:
                    if c.external: continue
                    if c.src is None: seen[fnkey(c)] = c
                    for _, t in c.resolve: seen.setdefault("%s|%s|%s||" % (t[0], t[2] if len(t) > 2 else "", t[1]), None)
                    for _, t in c.inline: seen.setdefault("%s|%s|%s||" % (t[0][0], t[0][2] if len(t[0]) > 2 else "", t[0][1]), None)
    return seen


def write_baseline():
    res = {}
    for key in sorted(all_fns()):
        f, o, n, t, i = key.split("|")
        res[key] = skel(f, n, o, t or None, i or None)
    json.dump(res, open(BASE, "w"), indent=0, sort_keys=True)


def same_shape(unit):
    """the functions of the unit have the statement skeleton they had when the contracts were written, or more or fewer statements"""
    base = json.load(open(BASE))
    for c in unit.fns:
        if c.external: continue
        keys = [fnkey(c)] if c.src is None else []
        keys += ["%s|%s|%s||" % (t[0], t[2] if len(t) > 2 else "", t[1]) for _, t in c.resolve]
        keys += ["%s|%s|%s||" % (t[0][0], t[0][2] if len(t[0]) > 2 else "", t[0][1]) for _, t in c.inline]
        for k in keys:
            f, o, n, t, i = k.split("|")
            s, b = skel(f, n, o, t or None, i or None), base.get(k)
            if s is None or b is None: return False
            if not (subseq(b, s) or subseq(s, b)): return False
    return True


# ------------------------------------------------------------------ running
def check_unit(vu, pid, k):
    """-> dict verdict"""
    r = {"unit": vu.label, "backend": "Verus/Z3", "functions": [], "verified": 0, "seconds": 0.0, "verdict": None, "errors": {}, "notes": [], "trusted": [], "cmd": ""}
    woven = fails = 0
    und = []
    try:
        alts = list(vu.alts())
    except Unsupported as e:
        r["verdict"] = "undecided: " + str(e)
        return r
    for n, un in enumerate(alts):
        try:
            text, ranges, infos = weave.build(un, vu.mode)
        except Unsupported as e:
            r["notes"].append("style %d does not apply: %s" % (n, e))
            continue
        woven += 1
        name = "%s_%d_%d" % (pid, k, n)
        errs, u, st = weave.verus(name, text, ranges)
        r["seconds"] += st["seconds"]
        for seed in (3, 11):
            if not errs: break
            # a failure that another solver seed does not repeat is the solver's, not the code's
            e2, u2, st2 = weave.verus(name + "_s%d" % seed, text, ranges, args=("--rlimit", "30", "--smt-option", "smt.random_seed=%d" % seed))
            r["seconds"] += st2["seconds"]
            if not u2 and sum(map(len, e2.values())) < sum(map(len, errs.values())): errs, u, st = e2, u2, st2
        hardened = set()
        for hard in (1, 1, 2):
            # or another proof of the same obligations: commutativity of products, nonlinear arithmetic, in the functions concerned
            if not errs or "(prelude)" in errs: break
            if hard == 1 and hardened >= set(errs): continue
            hardened |= set(errs)
            t2, rg2, _ = weave.build(un, vu.mode, hard=hard, which=hardened)
            e2, u2, st2 = weave.verus(name + "_h%d" % hard, t2, rg2, args=("--rlimit", "30"))
            r["seconds"] += st2["seconds"]
            if not u2 and sum(map(len, e2.values())) < sum(map(len, errs.values())): errs, u, st = e2, u2, st2
        r["cmd"] = st["cmd"]
        if u and not errs:
            und.append(u)
            continue
        if errs:
            fails += 1
            if "(prelude)" in errs and not vu.tables: und.append("prelude: " + str(errs["(prelude)"][:1]))
            if not r["errors"] or sum(map(len, errs.values())) < sum(map(len, r["errors"].values())): r["errors"] = errs
            r["shape"] = same_shape(un) or (vu.plain and "(prelude)" not in errs and not any(infos[f].get("tags") for f in errs))
            continue
        # discharged: now make sure the obligations were not vacuous
        vac = weave.vacuity(un, vu.mode, name + "_vac")
        r["seconds"] += vac["seconds"]
        if vac["bad"]:
            und.append("vacuous: " + ", ".join(vac["bad"]))
            continue
        r.update(verified=st["verified"], verdict="proved", guards=vac["guards"],
                 functions=sorted({"%s::%s%s" % (c.file, c.owner + "::" if c.owner else "", c.name) for c in un.fns if c.src is None and not c.external}),
                 trusted=weave.trusted(text))
        r["seconds"] = round(r["seconds"], 2)
        r["errors"] = {}
        return r
    r["seconds"] = round(r["seconds"], 2)
    if woven == 0:
        r["verdict"] = "undecided: " + "; ".join(r["notes"][:3])
    elif und or not fails:
        r["verdict"] = "undecided: " + "; ".join(und)[:600]
    elif not r.get("shape"):
        r["verdict"] = "undecided: obligations not discharged, but the function is written differently from the one the contract's invariants were written for (failed: %s)" % ", ".join(sorted(r["errors"]))
    else:
        r["verdict"] = "failed"
    return r


def run(pid, tier, budget):
    res = {"alarms": [], "undecided": [], "units": [], "functions": [], "assumptions": list(GENERAL), "obligations": 0, "discharged": 0, "solver_s": 0.0, "cmd": "", "suspect": []}
    us = units(pid)
    native.vx_exe()
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        rs = list(ex.map(lambda a: check_unit(a[1], pid, a[0]), enumerate(us)))
    trusted = set()
    for r in rs:
        res["solver_s"] += r["seconds"]
        res["cmd"] = r["cmd"] or res["cmd"]
        trusted |= set(r.pop("trusted"))
        res["functions"] += [f for f in r["functions"] if f not in res["functions"]]
        if r["verdict"] == "proved":
            res["obligations"] += r["verified"]
            res["discharged"] += r["verified"]
        elif r["verdict"] == "failed":
            n = sum(map(len, r["errors"].values()))
            res["obligations"] += n
            for fn, es in r["errors"].items():
                res["alarms"].append({"engine": "Verus/Z3", "obligation": "%s: %s" % (r["unit"], fn), "failed_checks": es, "confirmed": False, "cmd": r["cmd"]})
        else:
            res["obligations"] += 1
            res["undecided"].append("verus %s: %s" % (r["unit"], r["verdict"]))
            res["suspect"].append({"engine": "Verus/Z3", "unit": r["unit"], "verdict": r["verdict"], "errors": r["errors"]})
        res["units"].append({k: v for k, v in r.items() if k not in ("functions", "cmd")})
    for t in sorted(trusted):
        res["assumptions"].append("Verus, trusted contract: " + t)
    return res


if __name__ == "__main__":
    import sys
    if sys.argv[1:] == ["baseline"]:
        write_baseline()
