"""Runs the executable contracts (bounded stand-in and counterexample replay) of one property."""
import json, os, re, sys, shutil, signal, subprocess, tempfile, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
REPO = os.environ.get("D10_REPO", "/repo")


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def cargo_build(crate, target, args=()):
    os.makedirs(BUILD, exist_ok=True)
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, target)
    with open(os.path.join(BUILD, target + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return subprocess.run(["cargo", "build", "--offline", "-q", *args], cwd=os.path.join(VERIF, crate), env=e,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(pid=None):
    r = cargo_build("native", "native")
    if r.returncode != 0:
        raise RuntimeError("the executable contracts do not build against /repo:\n" + r.stdout[-4000:])
    if pid == "C25":
        r = cargo_build("native", "py", ["--manifest-path", os.path.join(REPO, "d10-python", "Cargo.toml")])
        if r.returncode != 0:
            raise RuntimeError("the Python module does not build:\n" + r.stdout[-4000:])
    if pid == "C29":
        r = cargo_build("native", "cli", ["--manifest-path", os.path.join(REPO, "d10-cli", "Cargo.toml")])
        if r.returncode != 0:
            raise RuntimeError("the program does not build:\n" + r.stdout[-4000:])


def python():
    """an interpreter that has numpy where there is one"""
    return shutil.which("python3-vt") or sys.executable


_vx = None


def vx_exe():
    global _vx
    if _vx is None:
        r = cargo_build("vx", "vx")
        if r.returncode != 0:
            raise RuntimeError("vx does not build:\n" + r.stdout[-3000:])
        _vx = os.path.join(BUILD, "vx", "debug", "vx")
    return _vx


def vx(path):
    exe = vx_exe()
    r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        return None
    return json.loads(r.stdout)


def mine(files):
    """Numeric literals of the source under test: boundary values of special cases become test values."""
    ints, floats = set(), set()
    for f in files:
        p = os.path.join(REPO, f)
        try:
            src = open(p, encoding="utf-8").read()
        except OSError:
            continue
        cut = src.find("#[cfg(test)]")
        if cut >= 0:
            src = src[:cut]
        src = re.sub(r"//[^\n]*", "", src)
        for m in re.finditer(r"(?<![\w.])(\d[\d_]*\.?[\d_]*(?:[eE][-+]?\d+)?)(?:_?(?:f32|f64|u8|u16|u32|u64|usize|i32|i64|isize))?", src):
            t = m.group(1).replace("_", "")
            try:
                if "." in t or "e" in t.lower():
                    v = float(t)
                    if abs(v) < 1e6:
                        floats.add(v)
                else:
                    v = int(t)
                    if v <= 2_000_000:
                        ints.add(v)
            except ValueError:
                pass
        for m in re.finditer(r"0x([0-9a-fA-F_]+)", src):
            v = int(m.group(1).replace("_", ""), 16)
            if v <= 2_000_000:
                ints.add(v)
    return sorted(ints)[:160], sorted(floats)[:200]


def run(pid, seed, tier, files, timeout):
    ints, floats = mine(files)
    scratch = tempfile.mkdtemp(prefix="d10-native-")
    e = env()
    e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, NATIVE_SCRATCH=scratch,
             NATIVE_INTS=",".join(map(str, ints)), NATIVE_FLOATS=",".join(repr(f) for f in floats))
    cmd = [os.path.join(BUILD, "native", "debug", "native"), pid]
    if pid == "C25":
        so = os.path.join(scratch, "so")
        os.mkdir(so)
        shutil.copy(os.path.join(BUILD, "py", "debug", "libd10.so"), os.path.join(so, "d10.so"))
        e.update(D10_SO=so, NATIVE_EXE=cmd[0], PYTHONDONTWRITEBYTECODE="1")
        cmd = [python(), os.path.join(VERIF, "native", "py", "c25.py")]
    if pid == "C29":
        e["D10_BIN"] = os.path.join(BUILD, "cli", "debug", "d10")
    t = time.time()
    try:
        p = subprocess.Popen(cmd, cwd=scratch, env=e,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return {"status": "timeout", "wall": time.time() - t, "ints": ints, "floats": floats}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res = None
    for line in reversed(out.splitlines()):
        if line.startswith('{"id"'):
            res = json.loads(line)
            break
    if res is None:
        if p.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL):
            return {"status": "crash", "signal": -p.returncode, "stderr": err[-2000:], "wall": time.time() - t}
        return {"status": "error", "rc": p.returncode, "stderr": err[-3000:], "wall": time.time() - t}
    res["status"] = "fail" if res["fail"] else "ok"
    res["cmd"] = "D10_SO=<directory with .build/py/debug/libd10.so as d10.so> NATIVE_EXE=.build/native/debug/native NATIVE_SCRATCH=<scratch> VERIF_SEED=%s VERIF_TIER=%s python3-vt native/py/c25.py" % (seed, tier) if pid == "C25" else "VERIF_SEED=%s VERIF_TIER=%s .build/native/debug/native %s" % (seed, tier, pid)
    return res
