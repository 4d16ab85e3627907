"""Executable contract of the Python module (C25): its results against those of the Rust operations, given by `native pyref`."""
import json, math, os, random, struct, subprocess, sys, time

sys.path.insert(0, os.environ["D10_SO"])
import d10
try: import numpy as np
except ImportError: np = None

seed, thorough = int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER") == "thorough"
rnd = random.Random(seed)
T0, LIMIT = time.time(), (150 if thorough else 25)
ref = subprocess.Popen([os.environ["NATIVE_EXE"], "pyref"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
scratch = os.environ["NATIVE_SCRATCH"]
evals, per, seen, samples = 0, {}, set(), []


class Fail(Exception): pass


def bits(f): return "%08x" % struct.unpack("<I", struct.pack("<f", f))[0]
def unbits(s): return struct.unpack("<f", struct.pack("<I", int(s, 16)))[0]
def f32(x): return unbits(bits(x))


def chans(c): return [getattr(c, n) for n in VALS[type(c).__name__[:3] if type(c).__name__.startswith("L") else type(c).__name__]] + [c.alpha]


VALS = {"Rgb": ("red", "green", "blue"), "Srgb": ("red", "green", "blue"), "Hsl": ("hue", "saturation", "lightness"), "Hsv": ("hue", "saturation", "value"), "Yuv": "yuv", "Xyz": "xyz", "Lab": "lab", "Lch": "lch"}


def itext(i): return "%d %d " % (i.width, i.height) + " ".join(bits(v) for c in i.to_list() for v in chans(c))
def ctext(c): return "1 1 " + " ".join(bits(v) for v in chans(c))


def ask(op, args="", *imgs):
    ref.stdin.write("\t".join([op, args] + list(imgs)) + "\n"); ref.stdin.flush()
    r = ref.stdout.readline().rstrip("\n")
    if not r or r == "?": raise RuntimeError("no reference for " + op)
    return r


def close(a, b, tol=1e-5): return len(a) == len(b) and all(x == y or (x != x and y != y) or abs(x - y) <= tol * max(1, abs(x), abs(y)) for x, y in zip(a, b))


def value(r):
    """a Python result in the form of the reference's answer"""
    if isinstance(r, d10.Image): return "I", [r.width, r.height] + [v for c in r.to_list() for v in chans(c)]
    if isinstance(r, bool): return "B", [r]
    if isinstance(r, float): return "F", [r]
    if isinstance(r, str): return "T", r
    if isinstance(r, bytes): return "H", r.hex()
    return "C", chans(r)


def parse(s):
    k, _, t = s.partition(" ")
    w = t.split(" ")
    if k == "I": return k, [int(w[0]), int(w[1])] + [unbits(x) for x in w[2:]]
    if k == "B": return k, [t == "true"]
    if k in "FC": return k, [unbits(x) for x in w]
    return k, t


def tick(fn, what):
    global evals
    evals += 1
    per[fn] = per.get(fn, 0) + 1
    k = (fn, what)
    if len(seen) < 100000 and k not in seen:
        seen.add(k)
        if len(samples) < 6 and per[fn] == 1: samples.append("%s: %s" % (fn, what[:200]))


def equal(fn, what, got, want):
    tick(fn, what)
    (gk, g), (wk, w) = value(got), want
    if gk != wk or (g != w if isinstance(g, str) else not close(g, w)): raise Fail(fn, what, "Python gives %s %s, the Rust operation %s %s" % (gk, str(g)[:600], wk, str(w)[:600]))


def need(fn, what, ok, detail=""):
    tick(fn, what)
    if not ok: raise Fail(fn, what, detail)


def raises(fn, what, f, *a, **k):
    tick(fn, what)
    try: f(*a, **k)
    except Exception: return
    except BaseException as e: raise Fail(fn, what, "panics: %s" % str(e)[:500])
    raise Fail(fn, what, "no exception")


def color():
    k = rnd.random()
    e = lambda: rnd.choice([0.0, 1.0, 0.5, f32(rnd.random()), f32(rnd.random())])
    a = rnd.choice([1.0, 1.0, 0.0, f32(rnd.random())])
    if k < 0.15: v = f32(rnd.random()); return d10.Rgb(v, v, v, a)
    return d10.Rgb(e(), e(), e(), a)


def image(w=None, h=None, opaque=False):
    w, h = w or rnd.randint(1, 8), h or rnd.randint(1, 8)
    l = [color() for _ in range(w * h)]
    if opaque: l = [c.with_alpha(1.0) for c in l]
    return d10.Image.from_list(w, h, l)


def n6(): return rnd.randint(0, 64) / 64


FILTERS = ["nearest", "bilinear", "bicubic", "lanczos3", "auto"]
BLENDS = "normal addition subtract darken lighten hsl_darken hsl_lighten lch_darken lch_lighten lch_hue lch_saturation lch_color".split()


def cases(i):
    """(method, Python arguments, the arguments the Rust operation is given, other images)"""
    w, h = i.width, i.height
    x, y = rnd.randrange(w), rnd.randrange(h)
    cw, ch = rnd.randint(1, w - x), rnd.randint(1, h - y)
    yield "crop", (x, y, cw, ch), (x, y, cw, ch)
    for n in ("flip_horizontal", "flip_vertical", "rotate90", "rotate180", "rotate270", "has_transparency", "is_grayscale"): yield n, (), ()
    for _ in range(3):
        a, b = rnd.randint(-3, 10), rnd.randint(-3, 10)
        yield "is_in_image", (a, b), (a, b)
        yield "get_pixel_clamped", (a, b), (a, b)
    r, f, g = rnd.randint(-256, 256) / 64, rnd.choice(FILTERS), rnd.randint(8, 160) / 64
    nw, nh = rnd.randint(1, 12), rnd.randint(1, 12)
    yield "rotate", (r,), (r, "bilinear")
    yield "rotate", (r, f), (r, f)
    yield "resize", (nw, nh), (nw, nh, "bilinear")
    yield "resize", (nw, nh, f), (nw, nh, f)
    if round(w * g) > 0 and round(h * g) > 0 and int(w * g) > 0 and int(h * g) > 0:
        yield "resize_pct", (g,), (g, "bilinear")
        yield "resize_pct", (g, f), (g, f)
    yield "edge_detection", (), ("sobel",)
    m = rnd.choice(["sobel", "laplace"])
    yield "edge_detection", (m,), (m,)
    q, p = rnd.randint(1, 100), rnd.random() < 0.5
    yield "with_jpeg_quality", (q,), (q, "true")
    yield "with_jpeg_quality", (q, p), (q, str(p).lower())
    for n in ("random_noise", "salt_n_pepper_noise", "rgb_noise", "gaussian_noise"):
        yield n, (0.0,), (0,)
        yield "add_" + n, (0.0,), (0,)
    rad, sg, fc = rnd.randint(1, 3), rnd.randint(16, 160) / 64, rnd.randint(0, 192) / 64
    yield "gaussian_blur", (rad,), (rad, "-")
    yield "gaussian_blur", (rad, sg), (rad, sg)
    yield "unsharp", (rad,), (rad, 1, "-")
    yield "unsharp", (rad, fc), (rad, fc, "-")
    yield "unsharp", (rad, fc, sg), (rad, fc, sg)
    m = rnd.choice(["gray", "colored", "default", "reduced_colors"])
    yield "drawing", (rad,), (rad, "colored")
    yield "drawing", (rad, m), (rad, m)
    o = rnd.randint(1, 3)
    yield "interlace", (o,), (o,)
    pal = image(rnd.randint(1, 6), 1)
    yield "apply_palette", (pal,), (), pal
    yield "apply_palette_in_place", (pal,), (), pal
    t, am = n6(), rnd.randint(1, 8)
    yield "despeckle", (), (bits_dec(0.1), 1)
    yield "despeckle", (t,), (t, 1)
    yield "despeckle", (t, am), (t, am)
    yield "symmetric_nearest_neighbor", (), (4, "true")
    yield "symmetric_nearest_neighbor", (rad,), (rad, "true")
    yield "symmetric_nearest_neighbor", (rad, p), (rad, str(p).lower())
    other, b = image(w, h), rnd.choice(BLENDS)
    yield "blend", (other,), ("normal", 1), other
    yield "blend", (other, b), (b, 1), other
    yield "blend", (other, b, t), (b, t), other
    s = rnd.randint(-32, 96) / 64
    yield "stretch_contrast", (), (0.5,)
    yield "stretch_contrast", (t,), (t,)
    m = rnd.choice(["hsl", "hsv", "lch"])
    yield "optimize_saturation", (), (1, "hsl")
    yield "optimize_saturation", (fc,), (fc, "hsl")
    yield "optimize_saturation", (fc, m), (fc, m)
    ta, tb = rnd.randint(2500, 9000), rnd.randint(2500, 9000)
    yield "change_color_temperature", (ta, tb), (ta, tb, 0)
    yield "change_color_temperature", (ta, tb, s), (ta, tb, s)
    yield "optimize_color_temperature", (t,), (t, 0)
    yield "optimize_color_temperature", (t, s), (t, s)
    yield "optimize_lightness", (t,), (t,)
    yield "white_balance", (), (0.5,)
    yield "white_balance", (t,), (t,)
    m = rnd.choice(["rgb", "srgb", "hsv", "hsl", "lch"])
    yield "balance", (), ("rgb", 0.5)
    yield "balance", (m,), (m, 0.5)
    yield "balance", (m, t), (m, t)
    m = rnd.choice(["rgb", "srgb", "saturation", "lightness", "saturation_lightness"])
    yield "equalize", (), ("srgb",)
    yield "equalize", (m,), (m,)


def bits_dec(x): return repr(f32(x))


def methods():
    i = image(opaque=rnd.random() < 0.4)
    t = itext(i)
    for fn, py, rs, *o in cases(i):
        want = parse(ask(fn, ",".join(str(a) for a in rs), t, *[itext(x) for x in o]))
        if fn.startswith("add_") or fn.endswith("_in_place"):
            got = d10.Image.from_list(i.width, i.height, i.to_list())
            need(fn, t, getattr(got, fn)(*py) is None, "returns something")
        else:
            got = getattr(i, fn)(*py)
            need(fn, t, itext(i) == t, "changes its image")
        equal(fn, "%s of %s" % (py if not o else py[1:], t[:1500]), got, want)


def pixels():
    w, h = rnd.randint(1, 7), rnd.randint(1, 7)
    l = [color() for _ in range(w * h)]
    i = d10.Image.from_list(w, h, l)
    need("from_list", "%dx%d" % (w, h), (i.width, i.height, len(i)) == (w, h, w * h) and [chans(a) for a in i.to_list()] == [chans(a) for a in l])
    for x in range(-2, w + 2):
        for y in range(-2, h + 2):
            p = i.get_pixel(x, y)
            inside = 0 <= x < w and 0 <= y < h
            need("get_pixel", "%d,%d of %dx%d" % (x, y, w, h), (p is not None) == inside and (not inside or chans(p) == chans(l[y * w + x])))
            if inside: need("__getitem__", "%d,%d" % (x, y), chans(i[x, y]) == chans(l[y * w + x]))
            else: raises("__getitem__", "%d,%d of %dx%d" % (x, y, w, h), lambda: i[x, y])
    for put in (0, 1):
        x, y, c = rnd.randrange(w), rnd.randrange(h), color()
        before = [chans(a) for a in i.to_list()]
        if put: i.put_pixel(x, y, c)
        else: i[x, y] = c
        before[y * w + x] = chans(c)
        need("put_pixel" if put else "__setitem__", "%d,%d of %dx%d" % (x, y, w, h), [chans(a) for a in i.to_list()] == before)
    c = color()
    j = d10.Image(w, h, c)
    need("new", "%dx%d" % (w, h), all(chans(a) == chans(c) for a in j.to_list()) and (j.width, j.height) == (w, h))
    need("new", "%dx%d blank" % (w, h), (d10.Image(w, h).width, d10.Image(w, h).height) == (w, h) and len(d10.Image(w, h)) == w * h)


def functions():
    i = image()
    w, h, l = i.width, i.height, i.to_list()
    flip = lambda c: d10.Rgb(c.blue, c.red, c.green, c.alpha)
    at = lambda x, y, c: d10.Rgb(x / 16, y / 16, c.blue, c.alpha)
    want1 = [[c.blue, c.red, c.green, c.alpha] for c in l]
    want2 = [[k % w / 16, k // w / 16, c.blue, c.alpha] for k, c in enumerate(l)]
    what = "%dx%d" % (w, h)
    L = lambda im: [chans(c) for c in im.to_list()]
    need("map_colors", what, L(i.map_colors(flip)) == want1 and L(i) == [chans(c) for c in l])
    need("map_colors_enumerated", what, L(i.map_colors_enumerated(at)) == want2 and L(i) == [chans(c) for c in l])
    a, b = d10.Image.from_list(w, h, l), d10.Image.from_list(w, h, l)
    a.mod_colors(flip); b.mod_colors_enumerated(at)
    need("mod_colors", what, L(a) == want1)
    need("mod_colors_enumerated", what, L(b) == want2)

    class Own(Exception): pass

    def bad(*_): raise Own()
    for n in ("map_colors", "map_colors_enumerated", "mod_colors", "mod_colors_enumerated"):
        try: getattr(d10.Image.from_list(w, h, l), n)(bad)
        except Own: need(n, "exception", True)
        else: need(n, "exception of the function", False, "not passed on")
    o, d = image(rnd.randint(1, 8), rnd.randint(1, 8)), color()
    cw, ch = max(w, o.width), max(h, o.height)
    got = d10.Image.compose([i, o], lambda x, y, cs: d10.Rgb(cs[0].red, cs[1].green, x / 16, y / 16), d)
    px = lambda im, x, y: chans(im.get_pixel(x, y) or d)
    need("compose", "%s and %dx%d" % (what, o.width, o.height), (got.width, got.height) == (cw, ch) and L(got) == [[px(i, x, y)[0], px(o, x, y)[1], x / 16, y / 16] for y in range(ch) for x in range(cw)])
    try: d10.Image.compose([i, o], bad)
    except Own: need("compose", "exception", True)
    else: need("compose", "exception of the function", False, "not passed on")


RGB_ARGS = {"is_grayscale": 0, "invert": 0, "with_gamma": 1, "with_gamma_opt": 1, "with_level": 3, "with_brightness": 1, "with_saturation": 1, "stretch_saturation": 1, "with_gamma_saturation": 1, "with_lightness": 1,
            "with_hue_rotate": 1, "with_contrast": 1, "with_brightness_contrast": 2, "with_vibrance": 1, "with_sepia": 0, "max": 0, "min": 0, "modulate": 3, "difference": "c", "alpha_blend": "c"}
SPACES = ["rgb", "srgb", "hsl", "hsv", "yuv", "xyz"]
ILL = [(i, o) for i in ("D65", "D50", "E") for o in ("2", "10")]


def colors():
    c, o = color(), color()
    t = ctext(c)
    for fn, k in RGB_ARGS.items():
        if k == "c": equal("Rgb." + fn, t, getattr(c, fn)(o), parse(ask("c." + fn, "", t, ctext(o))))
        else:
            a = [rnd.randint(8, 120) / 64 for _ in range(k)]
            equal("Rgb." + fn, "%s of %s" % (a, t), getattr(c, fn)(*a), parse(ask("c." + fn, ",".join(map(str, a)), t)))
    equal("Rgb.to_gray", t, c.to_gray(), parse(ask("c.to_gray", "", t)))
    for n in "average rec601luma rec709luma brightness lightness saturation red green blue".split(): equal("Rgb.to_gray", n + " " + t, c.to_gray(n), parse(ask("c.to_gray", n, t)))
    for s in SPACES: equal("to_" + s, t, getattr(c, "to_" + s)(), parse(ask("c." + s, "", t)))
    equal("__str__", t, str(c), parse(ask("c.text", "", t)))
    equal("__repr__", t, repr(c), parse(ask("c.text", "", t)))
    equal("type_name", t, c.type_name, parse(ask("c.type_name", "", t)))
    equal("Rgb.has_transparency", t, c.has_transparency(), parse(ask("c.has_transparency", "", t)))
    all_ = [getattr(c, "to_" + s)() for s in SPACES]
    for m in ("lab", "lch"):
        equal("to_" + m, t, getattr(c, "to_" + m)(), parse(ask("c.%s D65 2" % m, "", t)))
        for i, ob in ILL:
            q = getattr(c, "to_" + m)(i, ob)
            equal("to_" + m, "%s %s %s" % (i, ob, t), q, parse(ask("c.%s %s %s" % (m, i, ob), "", t)))
            need("to_" + m, i + ob, type(q).__name__ == m.capitalize() + i + "O" + ob, type(q).__name__)
            v = [rnd.randint(0, 64) / 64 for _ in range(4)]
            z = (d10.Lab if m == "lab" else d10.Lch)(v[0], v[1], v[2], v[3], i, ob)
            need(m.capitalize(), i + ob, type(z) is type(q) and chans(z) == v, str(z))
            all_.append(q)
    for v in all_:
        n = type(v).__name__
        names = VALS[n[:3] if n.startswith("L") else n]
        vals = [rnd.randint(0, 64) / 64 for _ in range(4)]
        w = type(v)(*vals)
        need(n + ".new", str(vals), chans(w) == vals, str(chans(w)))
        need(n + ".new", "no alpha", chans(type(v)(*vals[:3])) == vals[:3] + [1.0])
        for k, name in enumerate(list(names) + ["alpha"]):
            x = rnd.randint(0, 64) / 64
            e = vals[:k] + [x] + vals[k + 1:]
            need(n + ".with_" + name, "%s of %s" % (x, vals), chans(getattr(w, "with_" + name)(x)) == e and chans(w) == vals)
            y = type(v)(*vals)
            setattr(y, name, x)
            need(n + "." + name, "%s of %s" % (x, vals), chans(y) == e, str(chans(y)))
        need(n + ".__eq__", str(vals), w == type(v)(*vals))
        need(n + ".map_color_channels", str(vals), chans(w.map_color_channels(lambda q: q / 2)) == [q / 2 for q in vals[:3]] + [vals[3]])
        equal(n + ".to_rgb", str(chans(v)), v.to_rgb().to_rgb(), ("C", chans(v.to_rgb())))
        back = chans(v.to_rgb())
        need(n + ".to_rgb", t, close(back, [min(1, max(0, q)) for q in chans(c)], 2e-2) or c.red == c.green == c.blue == 0, "%s from %s" % (back, chans(v)))


def errors():
    i = image(3, 3)
    bad = "no such name"
    for fn, f in {"rotate": lambda: i.rotate(1.0, bad), "resize": lambda: i.resize(2, 2, bad), "resize_pct": lambda: i.resize_pct(2.0, bad), "edge_detection": lambda: i.edge_detection(bad), "drawing": lambda: i.drawing(1, bad), "blend": lambda: i.blend(i, bad),
                  "optimize_saturation": lambda: i.optimize_saturation(1.0, bad), "balance": lambda: i.balance(bad), "equalize": lambda: i.equalize(bad), "open": lambda: d10.Image.open(os.path.join(scratch, "missing.png")),
                  "save": lambda: i.save(os.path.join(scratch, "x.unknown")), "jpeg": lambda: d10.EncodingFormat.jpeg(85, False, bad), "png": lambda: d10.EncodingFormat.png(bad), "png compression": lambda: d10.EncodingFormat.png(None, bad),
                  "png filter": lambda: d10.EncodingFormat.png(None, None, bad), "bmp": lambda: d10.EncodingFormat.bmp(bad), "ico": lambda: d10.EncodingFormat.ico(bad), "webp": lambda: d10.EncodingFormat.webp(85, bad), "to_gray": lambda: color().to_gray(bad),
                  "to_lab": lambda: color().to_lab(bad), "to_lch": lambda: color().to_lch("D65", bad), "Lab": lambda: d10.Lab(0, 0, 0, 1, bad), "Lch": lambda: d10.Lch(0, 0, 0, 1, None, "3")}.items(): raises(fn, "an unknown name", f)


def files():
    i = image(rnd.randint(1, 12), rnd.randint(1, 12), rnd.random() < 0.5)
    t = itext(i)
    E = d10.EncodingFormat
    pc, pz, pf = rnd.choice("l8 la8 l16 la16 rgb8 rgba8 rgb16 rgba16".split()), rnd.choice("default fast best".split()), rnd.choice("no_filter sub up avg paeth".split())
    q, sf, b1, b2, b3 = rnd.randint(1, 100), rnd.choice("1x1 1x2 2x1 2x2 4:4:4 4:2:0 4:2:2".split()), *[rnd.random() < 0.5 for _ in range(3)]
    bc, wp = rnd.choice("l8 rgb8 rgba8".split()), rnd.choice("default picture photo drawing icon text lossless".split())
    S = lambda b: str(b).lower()
    l = [("jpg", E.jpeg(), "jpeg,85,false,-,false,true"), ("jpg", E.jpeg(q), "jpeg,%d,false,-,false,true" % q), ("jpg", E.jpeg(q, b1, sf, b2, b3), "jpeg,%d,%s,%s,%s,%s" % (q, S(b1), sf, S(b2), S(b3))), ("png", E.png(), "png,rgba8,default,sub"),
         ("png", E.png(pc), "png,%s,default,sub" % pc), ("png", E.png(pc, pz, pf), "png,%s,%s,%s" % (pc, pz, pf)), ("gif", E.gif(), "gif"), ("bmp", E.bmp(), "bmp,rgba8"), ("bmp", E.bmp(bc), "bmp," + bc), ("ico", E.ico(), "ico,rgba8"),
         ("webp", E.webp(), "webp,85,default"), ("webp", E.webp(q, wp), "webp,%d,%s" % (q, wp))]
    for ext, f, rs in l:
        want = parse(ask("encode", rs, t))
        p = os.path.join(scratch, "f.any")
        try: i.save(p, f); got = open(p, "rb").read()
        except OSError as e: got = None
        if got is None or want[0] == "E": need("save", rs + " " + t[:800], got is None and want[0] == "E", "one fails")
        else: equal("save", rs + " " + t[:800], got, want)
    p = os.path.join(scratch, "f.png")
    i.save(p)
    equal("save by name", t[:800], open(p, "rb").read(), parse(ask("encode", "png,rgba8,default,sub", t)))
    j = d10.Image.open(p)
    need("open", t[:800], (j.width, j.height) == (i.width, i.height) and all(close(chans(a), chans(b), 0.02) for a, b in zip(j.to_list(), i.to_list()) if b.alpha > 0.1))


AR = ["rgb", "rgba", "srgb", "srgba", "hsl", "hsla", "hsv", "hsva", "yuv", "yuva", "xyz", "xyza", "lab", "laba", "lch", "lcha"]


def arrays():
    i = image(rnd.randint(1, 6), rnd.randint(1, 6))
    w, h, l = i.width, i.height, i.to_list()
    what = itext(i)[:800]
    for s in AR:
        base, n = (s[:-1], 4) if s.endswith("a") else (s, 3)
        a = i.to_np_array(s)
        conv = [chans(getattr(c, "to_" + base)())[:n] for c in l]
        need("to_np_array", s + " " + what, a.shape == (h, w, n) and a.dtype == np.float32 and close(a.ravel().tolist(), [v for c in conv for v in c]), str(a.tolist())[:400])
        j = d10.Image.from_np_array(a, s)
        want = [(getattr(c, "to_" + base)().to_rgb()) for c in l]
        want = [chans(c if n == 4 else c.with_alpha(1.0)) for c in want]
        need("from_np_array", s + " " + what, (j.width, j.height) == (w, h) and close([v for c in j.to_list() for v in chans(c)], [v for c in want for v in c]), "colour space %s: %s, not %s" % (s, [chans(c) for c in j.to_list()][:2], want[:2]))
        if n == 4:
            j = d10.Image.from_np_array(a, base)
            need("from_np_array", base + " with alpha " + what, close([v for c in j.to_list() for v in chans(c)], [v for c in want for v in c]), "colour space %s with four channels" % base)
    g = i.to_np_array("gray")
    need("to_np_array", "gray " + what, g.shape == (h, w, 1) and close(g.ravel().tolist(), [c.to_gray().red for c in l]))
    for arr, cs in ((g, "gray"), (g, None), (g.reshape(h, w), "gray"), (g.reshape(h, w), None)):
        j = d10.Image.from_np_array(arr, cs)
        need("from_np_array", "gray " + what, (j.width, j.height) == (w, h) and all(close(chans(c), [v, v, v, 1]) for c, v in zip(j.to_list(), g.ravel().tolist())))
    for cs, n in ((None, 4), (None, 3)):
        a = i.to_np_array("rgba" if n == 4 else "rgb")
        j = d10.Image.from_np_array(a)
        need("from_np_array", "auto " + what, close([v for c in j.to_list() for v in chans(c)[:n]], a.ravel().tolist()))
    need("to_np_array", "default " + what, close(i.to_np_array().ravel().tolist(), [v for c in l for v in chans(c)]))
    src = np.array([v for c in l for v in chans(c)], dtype=np.float64)
    for dt, m in (("uint8", 255), ("uint16", 65535), ("uint32", 4294967295), ("float64", None), ("float32", None), ("bool", None)):
        a = i.to_np_array("rgba", dt)
        x = np.asarray(a, dtype=np.float64).ravel()
        ok = a.dtype == np.dtype(dt) and a.shape == (h, w, 4) and (np.all(np.abs(x - src * m) <= 1 + m * 1e-6) if m else np.all(x == (src >= 0.5)) if dt == "bool" else np.allclose(x, src))
        need("to_np_array", dt + " " + what, bool(ok), str(a.tolist())[:400])
        need("to_np_array", "type " + dt, i.to_np_array("rgba", a.dtype.type).dtype == a.dtype)
        j = d10.Image.from_np_array(a)
        y = np.array([v for c in j.to_list() for v in chans(c)])
        z = x / m if m else x
        need("from_np_array", dt + " " + what, bool(np.allclose(y, z, atol=1e-5)), "%s array: %s, not %s" % (dt, y.tolist()[:8], z.tolist()[:8]))
    raises("to_np_array", "an unknown colour space", i.to_np_array, "nothing")
    raises("to_np_array", "an unknown type", i.to_np_array, "rgb", "int3")
    raises("from_np_array", "an unknown colour space", d10.Image.from_np_array, i.to_np_array(), "nothing")
    raises("from_np_array", "a bad shape", d10.Image.from_np_array, np.zeros((2, 2, 2), dtype=np.float32))
    for sh in ((3,), (), (2, 2, 4, 1), (2, 2, 5)): raises("from_np_array", "a bad shape %s" % (sh,), d10.Image.from_np_array, np.zeros(sh, dtype=np.float32))
    raises("from_np_array", "an unsupported type", d10.Image.from_np_array, np.zeros((2, 2, 4), dtype=np.int16))


fail = None
parts = [methods, pixels, functions, colors, errors, files] + ([arrays] if np is not None else [])
n = 0
try:
    while time.time() - T0 < LIMIT and n < (3000 if thorough else 150):
        for p in parts: p()
        n += 1
except Fail as e: fail = {"func": "Python module: " + str(e.args[0]), "input": str(e.args[1])[:4000], "detail": str(e.args[2])[:2000]}
except Exception as e:
    if isinstance(e, RuntimeError) and "no reference" in str(e): raise
    import traceback
    fail = {"func": "Python module", "input": "seed %d round %d" % (seed, n), "detail": "exception: %s" % traceback.format_exc()[-1500:]}
except BaseException as e:
    fail = {"func": "Python module", "input": "seed %d round %d" % (seed, n), "detail": "panic: %s" % str(e)[:1500]}
ref.stdin.close()
print(json.dumps({"id": "C25", "seed": seed, "evals": evals, "distinct": len(seen), "wall": time.time() - T0, "per_fn": per, "samples": samples, "exhaustive": [], "fail": fail}))
