"""Runs the steps of a check: TLC, the harness, and the two directions of conformance.

A check is a list of steps.  Two kinds of step exist:
  Gen    TLC explores a specification exhaustively within constants, checks its invariants in every
         state and writes behaviours; the harness replays each into the real library.
  Trace  inputs are generated (seeded), the harness records what the real library does with them,
         and TLC validates every record as a behaviour of the specification.
"""
import json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SOUPY_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CARGO_ENV = dict(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
                 CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="")


class ToolError(Exception):
    """The check itself could not run; never a statement about the code under test."""


class Violation(Exception):
    def __init__(self, what, payload):
        super().__init__(what)
        self.what, self.payload = what, payload


def build(features=None, target=TARGET):
    """Builds the harness against /repo's working tree and returns the binary's path."""
    env = dict(os.environ, **CARGO_ENV)
    env["CARGO_TARGET_DIR"] = target
    forget(os.path.join(target, "release", ".fingerprint"))
    cmd = ["cargo", "build", "--release", "--offline", "--locked", "--quiet",
           "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")]
    if features is not None:
        cmd += ["--no-default-features", "--features", ",".join(features)]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-6000:])
        raise ToolError("harness does not build")
    return os.path.join(target, "release", "soupy-harness")


def build_features(features, target):
    """A quickly compiled build with just these documented features: (binary, None) or (None, what went wrong)."""
    env = dict(os.environ, **CARGO_ENV)
    env["CARGO_TARGET_DIR"] = target
    name = "-".join(features) or "none"
    forget(os.path.join(target, "features", ".fingerprint"))
    r = subprocess.run(["cargo", "build", "--profile", "features", "--offline", "--locked", "--quiet", "--no-default-features", "--features", ",".join(features),
                        "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        return None, r.stderr
    binary = os.path.join(target, "soupy-harness-" + name)
    shutil.copy2(os.path.join(target, "features", "soupy-harness"), binary)
    return binary, None


def forget(fp):
    """cargo goes by mtimes: always recompile the library under test"""
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("soupy-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


class Tlc:
    """Result of one TLC run."""

    def __init__(self, out):
        self.out = out
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        self.generated, self.distinct = [int(x.replace(",", "")) for x in m[-1]] if m else (0, 0)
        m = re.search(r"Finished computing initial states: (\d[\d,]*)", out)
        self.initial = int(m.group(1).replace(",", "")) if m else 0
        self.invariant = None
        m = re.search(r"Invariant (\w+) is violated", out)
        if m:
            self.invariant = m.group(1)
        else:  # a recorded value outside every shape the specification speaks of
            m = re.search(r"Evaluating invariant (\w+) failed", out)
            if m and not re.search(r"StackOverflow|OutOfMemory", out):
                self.invariant = m.group(1)

    def last_state(self):
        """The variables of the last state TLC printed, as strings."""
        states = re.split(r"State \d+: |by the initial state:|evaluating the initial state", self.out)
        return dict(re.findall(r"(?m)^(?:/\\ )?(\w+) = (.*)", states[-1]))


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r") + '"'


def run_tlc(work, module, constants, invariants, name, timeout=840, workers=8, props=(), simulate=None, heap="8g", seed=None):
    cfg = os.path.join(work, name + ".cfg")
    with open(cfg, "w") as f:
        if constants:
            f.write("CONSTANTS\n")
            for k, v in constants.items():
                f.write(f" {k} = {tla(v)}\n")
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
        if invariants:
            f.write("INVARIANTS " + " ".join(invariants) + "\n")
        if props:
            f.write("PROPERTIES " + " ".join(props) + "\n")
    meta = os.path.join(work, "meta-" + name)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss32m", "-Dfile.encoding=UTF-8", "-cp", TLA, "tlc2.TLC",
           "-workers", str(workers), "-config", cfg, "-metadir", meta, "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", simulate[0], "-depth", str(simulate[1])]
        if seed is not None:
            cmd += ["-seed", str(seed)]
    cmd.append(module)
    try:
        r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC did not finish {module} ({name}) within {timeout} s")
    shutil.rmtree(meta, ignore_errors=True)
    t = Tlc(r.stdout)
    if r.returncode != 0 and not t.invariant:
        sys.stderr.write("\n".join(l[:400] for l in r.stdout.splitlines()[-40:]) + "\n")
        raise ToolError(f"TLC failed on {module} ({name})")
    return t


def harness(binary, mode, infile, outfile, extra=(), timeout=600, env=None):
    """Runs the harness.  Returns None, or a description of the record it crashed or hung on."""
    status = outfile + ".status"
    cmd = [binary, mode, infile, outfile, "--status", status] + list(extra)
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError(f"harness did not finish {infile}")
    if r.returncode == 0:
        return None
    lines = [l for l in open(infile) if l.strip()]
    rec = lambda i: (lambda v: json.loads(v) if isinstance(v, str) else v)(json.loads(lines[i]))
    if r.returncode == 7:
        info = json.load(open(outfile))
        return {"line": info["hang"], "record": rec(info["hang"]), "got": {"hang": info["limit"]}}
    if r.returncode < 0:  # killed by a signal: find the record that does it
        raw = open(status, "rb").read()
        cand = sorted({x for (x,) in struct.iter_unpack("<Q", raw[: len(raw) // 8 * 8]) if x})
        for c in cand:
            one = outfile + ".one"
            with open(one, "w") as f:
                f.write(lines[c - 1])
            s = subprocess.run([binary, mode, one, one + ".out", "--threads", "1"] + list(extra),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=e)
            if s.returncode < 0:
                return {"line": c - 1, "record": rec(c - 1), "got": {"killed": signal.Signals(-s.returncode).name}}
        # not reproducible on its own: still an abnormal end of the library under test
        if -r.returncode == signal.SIGKILL:
            raise ToolError("harness was killed (out of memory?)")
        return {"line": -1, "record": {"candidates": [rec(c - 1) for c in cand]},
                "got": {"killed": signal.Signals(-r.returncode).name}}
    sys.stderr.write(r.stderr.decode(errors="replace")[-3000:])
    raise ToolError(f"harness failed on {infile} (exit {r.returncode})")


def shorten(o, limit=400):
    """Readable form of a record for reports: code point arrays become text."""
    if isinstance(o, list) and o and all(isinstance(c, int) and not isinstance(c, bool) for c in o):
        s = "".join(chr(c) for c in o)
        return s if len(s) <= limit else s[:limit] + f"... ({len(s)} characters)"
    if isinstance(o, list):
        r = [shorten(x, limit) for x in o[:40]]
        return r + [f"... ({len(o)} items)"] if len(o) > 40 else r
    if isinstance(o, dict):
        return {k: shorten(v, limit) for k, v in o.items()}
    return o


def sample_lines(path, rng, k=2):
    """A few lines of a behaviour file, decoded."""
    size = os.path.getsize(path)
    out = []
    with open(path, "rb") as f:
        for _ in range(k):
            f.seek(rng.randrange(size) if size else 0)
            f.readline()
            l = f.readline() or (f.seek(0) or f.readline())
            if l.strip():
                v = json.loads(l)
                out.append(shorten(json.loads(v) if isinstance(v, str) else v, 200))
    return out
