"""Kani engine: discharges the contracts of /verif/kani (loop-free or constant-width harnesses over full-domain symbolic
arguments, on /repo's crates or on files of /repo included verbatim) with CBMC, and replays counterexamples natively."""
import fcntl, os, re, signal, subprocess, time
import native, extract

CRATE = os.path.join(native.VERIF, "kani")
OUT = os.path.join(native.BUILD, "vx_out")
FLAGS = ["-Z", "stubbing", "-Z", "unstable-options", "--output-format", "terse", "--no-overflow-checks"]

# property -> what is extracted (rest: d10-core as a dependency, or files included verbatim)
EXTRACT = {
    "C16": lambda: ("c16.rs", extract.closure("d10-codecs/src/utils.rs", ["as_u8", "as_u16", "as_u8_floor", "from_u8", "from_u16_be", "from_u16_ne"])),
    "C18": lambda: ("c18.rs", extract.closure("d10-codecs/src/lib.rs", [], ["Format"], ["Format"])),
}
FUNCS = {
    "C10": ["Color::with_gamma/with_level/with_brightness/with_contrast/with_saturation/with_lightness/with_hue_rotate/modulate/with_vibrance/with_sepia/invert/grayscale of Rgb", "Rgb::new*", "Srgb::new*"],
    "C11": ["every to_rgb/to_srgb/to_hsl/to_hsv/to_yuv/to_xyz/to_lab/to_lch of the colour types", "Rgb adjustments", "with_alpha, with_<channel>, map_channels, map_color_channels"],
    "C12": ["Rgb::to_hsl", "Rgb::to_hsv", "Hsl::to_rgb", "Hsv::to_rgb", "color::clamp"],
    "C14": ["blend::blend_normal", "blend_addition", "blend_subtract", "blend_darken", "blend_lighten"],
    "C15": ["gamma_to_linear", "linear_to_gamma", "Rgb::to_srgb", "Srgb::to_rgb"],
    "C16": ["utils::as_u8", "utils::as_u16", "utils::as_u8_floor", "utils::from_u8", "utils::from_u16_be", "utils::from_u16_ne"],
    "C18": ["Format::from_reader"],
    "C20": ["salt_n_pepper_noise", "add_salt_n_pepper_noise", "rgb_noise", "add_rgb_noise", "random_noise", "add_random_noise", "gaussian_noise", "add_gaussian_noise"],
    "C21": ["PartialEq::eq and has_transparency of Rgb, Srgb, Hsl, Hsv, Yuv, Xyz, Lab, Lch", "Rgb::is_grayscale", "PixelBuffer::has_transparency, is_grayscale (bounded: 3 pixels)"],
}
ASSUME = {
    "C10": ["f32::powf, sin, cos, atan2 replaced by assumed contracts (range and fixed points only): Kani models no libm"],
    "C11": ["f32::powf, cbrt, sin, cos, atan2, sqrt replaced by an arbitrary result: alpha does not depend on them"],
    "C14": ["HSL/LCH blends are not under a Kani contract (they are under a Verus one)"],
    "C15": ["f32::powf replaced by an assumed contract: x^y in [0,1] for x in [0,1], y>0; fixes 0 and 1; >= 1 above 1"],
    "C16": ["monotonicity is proved on neighbouring floats; the step to all pairs (finite induction over the ordered floats) is a pen-and-paper lemma"],
    "C18": ["streams of at most 16 bytes (from_reader looks at 12); Seek/Read of the harness stream stand for any reader; I/O errors of the reader are not injected"],
    "C20": ["rand::thread_rng() resolved to a source returning arbitrary words (after 4 words: 1, so that rejection loops end); StandardNormal returns an arbitrary value in [-64, 64]; one-pixel images (map_colors/mod_colors on many pixels are C03)"],
    "C21": ["buffer forms bounded: 3 pixels; the unbounded form is a Verus obligation"],
}
GENERAL = ["Kani 0.68/CBMC 6.11 and rustc's MIR are trusted; f32 arithmetic is bit-precise IEEE-754; NaN/infinity production is not by itself a failure (--no-overflow-checks), integer overflow and panics are",
           "termination is not proved by Kani"]
NOISE = re.compile(r"NaN on |arithmetic overflow on floating-point|float.*division by zero")
UNDEC = re.compile(r"unwinding assertion|not currently supported|unsupported|recursion unwinding|ran out of memory", re.I)


def _cmd(feature, extra):
    return ["cargo", "kani", *FLAGS, "--features", feature, *extra]


def _env():
    e = native.env()
    e["CARGO_TARGET_DIR"] = os.path.join(native.BUILD, "kani")
    e["VX_OUT"] = OUT
    return e


def _run(cmd, timeout):
    p = subprocess.Popen(cmd, cwd=CRATE, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


def parse(out):
    """harness -> {status, checks, failed, msgs, covered, time}"""
    res, cur, thread_h = {}, None, {}
    single = None
    for line in out.split("\n"):
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", line)
        if m:
            h = m.group(2)
            res[h] = {"status": "none", "checks": 0, "failed": 0, "unreachable": 0, "msgs": [], "covered": None, "time": 0.0}
            if m.group(1) is not None:
                thread_h[m.group(1)] = h
            cur = h
            continue
        m = re.match(r"Thread (\d+): ?$", line)
        if m:
            cur = thread_h.get(m.group(1))
            continue
        if cur is None:
            continue
        r = res[cur]
        m = re.match(r" \*\* (\d+) of (\d+) failed(?: \((?:(\d+) unreachable)?)?", line)
        if m:
            r["failed"], r["checks"] = int(m.group(1)), int(m.group(2))
            continue
        m = re.match(r" \*\* (\d+) of (\d+) cover properties satisfied", line)
        if m:
            r["covered"] = m.group(1) == m.group(2)
            continue
        m = re.match(r"Failed Checks: (.*)", line)
        if m:
            r["msgs"].append(m.group(1).strip())
            continue
        m = re.match(r"VERIFICATION:- (\w+)", line)
        if m:
            r["status"] = m.group(1)
            continue
        if "CBMC timed out" in line or "CBMC failed" in line or "out of memory" in line:
            r["status"] = "timeout"
        m = re.match(r"Verification Time: ([\d.]+)", line)
        if m:
            r["time"] = float(m.group(1))
    return res


def _replay(feature, harness, timeout=150):
    """Counterexample bytes -> native run of the same contract on the real code."""
    _, out = _run(_cmd(feature, ["--exact", "--harness", harness, "-Z", "concrete-playback", "--concrete-playback=print", "--harness-timeout", "140s"]), timeout)
    info = {"counterexample_bytes": [], "native": "no concrete values given by the verifier"}
    tests = re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out or "", re.S)
    if not tests:
        return False, info
    r = native.cargo_build("kani", "kanirun", ["--features", feature])
    exe = os.path.join(native.BUILD, "kanirun", "debug", "contracts")
    if r.returncode != 0 or not os.path.exists(exe):
        info["native"] = "replay binary does not build: " + r.stdout[-500:]
        return False, info
    name = harness.split("::")[-1]
    for t in tests:
        vals = ["".join("%02x" % int(x) for x in re.findall(r"\d+", v)) for v in re.findall(r"^\s*vec!\[([\d, ]*)\],", t, re.M)]
        arg = ",".join(vals)
        try:
            p = subprocess.run([exe, name, arg], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, env=dict(os.environ, RUST_BACKTRACE="0"))
        except subprocess.TimeoutExpired:
            continue
        info = {"counterexample_bytes": vals, "native": p.stdout[-800:], "replay_command": "%s %s %s" % (exe, name, arg)}
        if p.returncode != 0 and "panicked" in p.stdout:
            return True, info
    return False, info


def run(pid, tier, budget):
    t0 = time.time()
    feature = pid.lower()
    res = {"alarms": [], "undecided": [], "units": [], "functions": FUNCS.get(pid, []), "assumptions": GENERAL + ASSUME.get(pid, []),
           "obligations": 0, "discharged": 0, "solver_s": 0.0, "cmd": ""}
    os.makedirs(OUT, exist_ok=True)
    # file lock: checks may run side by side in one tree
    with open(os.path.join(native.BUILD, "kani.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ph = {"C16": "c16.rs", "C18": "c18.rs"}
        if pid in EXTRACT:
            try:
                name, text = EXTRACT[pid]()
                p = os.path.join(OUT, name)
                if not os.path.exists(p) or open(p).read() != text:
                    open(p, "w").write(text)
            except LookupError as e:
                res["undecided"].append("kani %s: %s" % (pid, e))
                return res
        ht = int(min(budget * 0.75, 300 if tier == "quick" else 560))
        cmd = _cmd(feature, ["-j", "8", "--harness-timeout", "%ds" % ht])
        res["cmd"] = "cd kani && " + " ".join(cmd)
        rc, out = _run(cmd, budget)
        r = parse(out)
        if not r:
            tail = [l for l in out.split("\n") if re.match(r"\s*error", l)][:5]
            res["obligations"] += 1
            res["undecided"].append("kani %s: no harness ran (%s)" % (pid, "; ".join(tail) or "timeout"))
            return res
        nrep = 0
        for h, v in sorted(r.items()):
            real = [m for m in v["msgs"] if not NOISE.search(m) and not UNDEC.search(m)]
            und = [m for m in v["msgs"] if UNDEC.search(m)]
            bounded = "bounded" in h
            res["solver_s"] += v["time"]
            unit = {"contract": h, "backend": "Kani/CBMC", "checks": v["checks"], "failed": len(real), "seconds": v["time"], "bounded": bounded}
            if v["status"] == "SUCCESSFUL" or (v["status"] == "FAILED" and v["msgs"] and not real and not und):
                if v["covered"] is False:
                    unit["verdict"] = "undecided: vacuous (the end of the contract is unreachable)"
                    res["undecided"].append("kani %s: vacuous" % h)
                else:
                    unit["verdict"] = "holds within the bound in its name" if bounded else "proved"
                    if not bounded:
                        res["obligations"] += v["checks"]
                        res["discharged"] += v["checks"]
            elif v["status"] == "FAILED" and real and not und:
                unit["verdict"] = "failed"
                res["obligations"] += v["checks"]
                res["discharged"] += v["checks"] - len(real)
                ok, info = (False, {"native": "not replayed"})
                left = budget + 120 - (time.time() - t0)
                if nrep < 2 and left > 60:
                    nrep += 1
                    ok, info = _replay(feature, h, min(160, left))
                res["alarms"].append({"engine": "Kani/CBMC", "obligation": h, "failed_checks": real, "confirmed": ok, "replay": info})
            else:
                unit["verdict"] = "undecided: %s" % (v["status"] if not und else und[0])
                res["obligations"] += max(1, v["checks"])
                res["undecided"].append("kani %s: %s" % (h, unit["verdict"]))
            res["units"].append(unit)
    return res
