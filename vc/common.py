"""Shared machinery: extraction, running Verus, mapping failed obligations to functions."""
import contextlib, json, os, re, signal, subprocess, sys, threading, time, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CONTRACTS = os.path.join(VERIF, "contracts")
VX = os.path.join(BUILD, "vx/release/vx")
NCPU = os.cpu_count() or 8


def cargo_env(target):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=target)
    e.pop("RUSTFLAGS", None)
    return e


def build_vx():
    if os.path.exists(VX):
        newest = max(os.path.getmtime(os.path.join(VERIF, "vx", p)) for p in ("src/main.rs", "src/extract.rs", "src/expand.rs", "src/inline.rs", "src/schema.rs", "Cargo.toml"))
        if os.path.getmtime(VX) >= newest:
            return
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "vx"), env=cargo_env(os.path.join(BUILD, "vx")), capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr)
        raise SystemExit("vx does not build")


INLINE = True     # calls of functions without a contract are replaced by their bodies; off when that does not verify as Rust


def extract(reqs):
    build_vx()
    reqs = [{**q, "inline": q.get("inline", INLINE and "known" in q)} for q in reqs]
    r = subprocess.run([VX, "extract"], input=json.dumps(reqs), capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("vx: " + r.stderr[-2000:])
    return json.loads(r.stdout)


def re_valid(pats):
    build_vx()
    r = subprocess.run([VX, "regex"], input=json.dumps(pats), capture_output=True, text=True, check=True)
    return json.loads(r.stdout)


def read(*p):
    with open(os.path.join(*p)) as f:
        return f.read()


PH = re.compile(r"/\*@([A-Z])([^@]*)@\*/")


def weave(text, ins):
    """Replace placeholders by contract text. ins: {(letter, key): text}. Function markers stay as comments."""
    def sub(m):
        k = (m.group(1), m.group(2))
        s = ins.get(k, "")
        if m.group(1) == "A":
            return f"/*vxfn:{m.group(2)}*/ {s}"
        if m.group(1) == "L":
            return f"/*vxloop:{m.group(2)}*/ {s}"
        return s
    return PH.sub(sub, text)


@contextlib.contextmanager
def no_inlining():
    global INLINE
    INLINE = False
    try:
        yield
    finally:
        INLINE = True


class Src:
    """One extracted source file, as a module of the generated crate."""
    def __init__(self, name, relfile, ex):
        self.name, self.file = name, relfile
        self.error = ex.get("error")
        self.text = ex.get("text", "")
        self.fns = ex.get("fns", [])
        self.notes = ex.get("notes", [])
        self.mods = ex.get("mods", [])
        self.schema = ex.get("schema", {})
        self.inlined = ex.get("inlined") or {}
        self.byid = {f["id"]: f for f in self.fns}


def verus_name(mod, path):
    """the verifier's name of an extracted function (as in its function breakdown), without the crate"""
    path = re.sub(r"<(.*?) as [^>]*>+::", lambda m: re.sub(r"<.*$", "", m.group(1)) + "::", path)
    path = re.sub(r"(\w)<[^:]*>::", r"\1::", path)
    return f"{mod}::{path}"


def submodules(srcs):
    return [f"{s.name}::{m}" for s in srcs for m in s.mods]


MARK = re.compile(r"/\*vx(mod|fn|endfn|spec):([^*]*)\*/")


def line_map(text):
    """for each line of the generated crate: (module, fn id or spec name)"""
    out = [None]
    mod, fn = "", None
    for line in text.split("\n"):
        first = None
        for m in MARK.finditer(line):
            if m.group(1) == "mod":
                mod, fn = m.group(2), None
            elif m.group(1) == "fn":
                fn = ("fn", int(m.group(2)))
                first = first or fn
            elif m.group(1) == "spec":
                fn = ("spec", m.group(2))
                first = first or fn
        out.append((mod, fn))
    return out


class VRes:
    def __init__(self):
        self.ok = False
        self.verified = 0
        self.errors = []      # {"fn":(mod, id), "msg":..., "rendered":..., "kind": fail|unsupported|other|rlimit}
        self.time = 0.0
        self.smt_ms = 0
        self.cmd = ""
        self.crash = None
        self.fns = {}         # functions the verifier reports a verdict for


FAIL = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "possible arithmetic",
        "possible division", "decreases not satisfied", "failed", "unreachable", "recommendation not met", "loop invariant", "not satisfied", "might not")
RL = ("Resource limit", "rlimit", "timed out", "canceled")


def stream(cmd, cwd, timeout, grace, lm):
    """run cmd; returns (stderr, stdout, exit code or None when stopped)"""
    with subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=cwd, start_new_session=True) as p:
        err, std = [], []
        end = [time.time() + timeout]

        def failing(line):
            try:
                d = json.loads(line)
            except ValueError:
                return False
            if d.get("level") != "error" or d.get("code") or not any(x in d["message"] for x in FAIL) or any(x in d["message"] for x in RL):
                return False
            at = [lm[x["line_start"]] for x in d.get("spans", []) if x["line_start"] < len(lm)]
            return any(a and a[1] and a[1][0] == "fn" for a in at)

        def rd_err():
            for line in p.stderr:
                err.append(line)
                if grace and line.startswith("{") and failing(line):
                    end[0] = min(end[0], time.time() + grace)

        def rd_out():
            for line in p.stdout:
                std.append(line)
        ts = [threading.Thread(target=rd_err, daemon=True), threading.Thread(target=rd_out, daemon=True)]
        for t in ts:
            t.start()
        code = None
        while True:
            try:
                code = p.wait(timeout=max(0.05, min(2, end[0] - time.time())))
                break
            except subprocess.TimeoutExpired:
                if time.time() >= end[0]:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    break
        for t in ts:
            t.join(5)
    return "".join(err), "".join(std), code


def run_verus(path, text, modules=None, extra=(), timeout=600, threads=2, errors=4, grace=None):
    """grace: seconds the verifier gets after its first definite failure (Z3 slows down after one)"""
    with open(path, "w") as f:
        f.write(text)
    cmd = ["verus", path, "--edition", "2024", "--crate-type", "lib", "--error-format=json", "--output-json", "--time-expanded", "--multiple-errors", str(errors), "--num-threads", str(threads)] + list(extra)
    for m in modules or []:
        cmd += ["--verify-only-module", m]
    res = VRes()
    res.cmd = " ".join(cmd)
    t = time.time()
    lm = line_map(text)
    err, std, code = stream(cmd, os.path.dirname(path), timeout, grace, lm)
    if code is None:
        res.crash, code = "timeout", 1     # what it had already found counts
    res.time = time.time() - t
    for line in err.split("\n"):
        if not line.startswith("{"):
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting due to"):
            continue
        locs = []
        for s in d.get("spans", []):
            if s["line_start"] < len(lm):
                locs.append((lm[s["line_start"]], s["is_primary"], s["line_start"], s.get("label")))
        msg = d["message"]
        if d.get("code"):
            kind = "other"
        elif any(x in msg for x in RL):
            kind = "rlimit"
        elif any(x in msg for x in FAIL):
            kind = "fail"
        else:
            kind = "other"
        res.errors.append({"msg": msg, "locs": locs, "kind": kind, "rendered": d.get("rendered", "")})
    try:
        j = json.loads(std[std.index("{"):])
        v = j.get("verification-results", {})
        res.verified = v.get("verified", 0)
        res.ok = bool(v.get("success"))
        res.smt_ms = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        res.ran = "verified" in v
        def walk(d):
            if isinstance(d, dict):
                if "function" in d and "success" in d:
                    n = d["function"].split("::", 1)[1]
                    res.fns[n] = res.fns.get(n, True) and d["success"]
                for x in d.values():
                    walk(x)
            elif isinstance(d, list):
                for x in d:
                    walk(x)
        walk(j.get("times-ms", {}))
    except ValueError:
        res.ran = False
    if code != 0 and not res.errors and not res.crash:
        res.crash = (err + std)[-2000:]
    return res


def pool(jobs, n=NCPU):
    """run thunks in parallel, keep order"""
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(lambda j: j(), jobs))
