"""Shared machinery of the checks: building harnesses, running TLC, reporting."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
CORES = 8


class NoAnswer(Exception):
    """The check could not decide (build failure, tool failure)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or "1")


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def thorough():
    return tier() == "thorough"


def pick(quick, deep):
    return deep if thorough() else quick


def log(*a):
    print(*a, flush=True)


def env_cargo(name):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, name), CARGO_TERM_COLOR="never",
             RUST_BACKTRACE="0", CARGO_INCREMENTAL="0")
    e.pop("RUSTFLAGS", None)
    return e


def cargo(harness, args, name=None, extra_env=None, timeout=800, cwd=None):
    e = env_cargo(name or harness)
    e.update(extra_env or {})
    d = cwd or os.path.join(VERIF, "harness", harness)
    p = subprocess.run(["cargo", "--offline", *args], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, timeout=timeout)
    return p


class Binary(str):
    """The path of a harness; `lean` is the same harness built without debug assertions."""
    lean = None


def build(harness, binary, name=None, args=(), extra_env=None, profile=None):
    t = time.time()
    args = list(args) + (["--profile", profile] if profile else [])
    p = cargo(harness, ["build", "-q", *args], name=name, extra_env=extra_env)
    if p.returncode != 0:
        log(p.stdout[-3000:])
        log(p.stderr[-6000:])
        raise NoAnswer("building harness %s failed" % harness)
    log("built %s%s in %.1fs" % (name or harness, " (%s)" % profile if profile else "", time.time() - t))
    return Binary(os.path.join(BUILD, name or harness, profile or "debug", binary))


def work(name):
    d = os.path.join(BUILD, "work", "%s-%d" % (name, os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


def clean(d):
    shutil.rmtree(d, ignore_errors=True)


def dump(path, obj):
    with open(path, "w") as f:
        json.dump(obj, f)


def dump_nd(path, items):
    with open(path, "w") as f:
        for x in items:
            f.write(json.dumps(x))
            f.write("\n")


class Died(Exception):
    pass


def run_bin(binary, cmd, cases, d, timeout=300, tag=""):
    """Run the executor on cases; raises Died when the process does not survive."""
    i, o = os.path.join(d, "in%s.json" % tag), os.path.join(d, "out%s.json" % tag)
    dump(i, cases)
    if os.path.exists(o):
        os.remove(o)
    try:
        p = subprocess.run([binary, cmd, i, o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Died("timeout after %ss" % timeout)
    if p.returncode == 3:
        raise NoAnswer("driver error: " + p.stderr[-500:])
    if p.returncode != 0 or not os.path.exists(o):
        raise Died("exit %s: %s" % (p.returncode, p.stderr[-500:]))
    with open(o) as f:
        return json.load(f)


def run_each(binary, cmd, cases, d, timeout=300, small_timeout=20):
    """Like run_bin, but isolates the cases that kill the process: their result is {"res": "died"}."""
    try:
        return run_bin(binary, cmd, cases, d, timeout)
    except Died as e:
        if len(cases) == 1:
            return [{"res": "died", "why": str(e)}]
        log("executor died on a batch of %d (%s); splitting" % (len(cases), e))
    m = len(cases) // 2
    t = max(small_timeout, timeout // 4)
    return run_each(binary, cmd, cases[:m], d, t) + run_each(binary, cmd, cases[m:], d, t)


def twice(b, cmd, cases, d, same=None, **kw):
    """Run in the debug build and in the lean one.  What the lean build does differently becomes a
    case of its own.  Returns (indices of the cases, observations)."""
    obs = run_each(b, cmd, cases, d, **kw)
    idx = list(range(len(cases)))
    if b.lean:
        lean = run_each(b.lean, cmd, cases, d, **kw)
        same = same or (lambda x: x)
        diff = [i for i in idx if same(obs[i]) != same(lean[i])]
        if diff:
            log("the lean build differs on %d of %d cases" % (len(diff), len(cases)))
        idx, obs = idx + diff, obs + [lean[i] for i in diff]
    return idx, obs


def with_lean(b, harness, binary, features="random"):
    """Also build what an application ships: no debug assertions, only the given features."""
    try:
        b.lean = build(harness, binary, args=["--no-default-features", "--features", features], profile="lean",
                       extra_env={"RUSTFLAGS": "--cap-lints=warn"})
    except NoAnswer:
        log("no lean build of %s: going on without it" % harness)
    return b


class Tlc:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.finished = "Model checking completed. No error has been found." in out
        self.prints = [ln for ln in out.split("\n") if ln.startswith("<<")]

    def rejected(self):
        return [ln for ln in self.prints if ln.startswith('<<"REJECTED"')]

    @property
    def transitions(self):
        return self.generated


def tlc(module, cfg=None, env=None, workers=CORES, args=(), timeout=850, heap="6g", keep=None):
    d = work("tlc-" + module)
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = "-Xss64m -Xmx%s" % heap
    cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
           "-config", cfg or module + ".cfg", *args, module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        clean(d)
        raise NoAnswer("TLC timed out on " + module)
    r = Tlc(p.stdout, p.returncode, time.time() - t)
    clean(d)
    return r


def model_check(module, cfg=None, **kw):
    """A design-level check: any error here is an error of the specification itself."""
    r = tlc(module, cfg, **kw)
    if not r.finished:
        log(r.out[-4000:])
        raise NoAnswer("model checking of %s failed" % (cfg or module))
    log("model %s: %d states, %d transitions, depth %d, %.1fs" % (cfg or module, r.distinct, r.generated, r.depth, r.wall))
    return r


def judge(module, cases, d, tag="", cfg=None, env=None, chunk=None, **kw):
    """One state per recorded case.  Returns (list of (index, text)), Tlc)."""
    p = os.path.join(d, "%s%s.ndjson" % (module, tag))
    dump_nd(p, cases)
    e = {"CASES": p}
    e.update(env or {})
    r = tlc(module, cfg, env=e, args=["-continue"], **kw)
    rej = []
    for ln in r.rejected():
        m = re.match(r'<<"REJECTED", (\d+), (.*)>>$', ln)
        rej.append((int(m.group(1)) - 1, m.group(2)) if m else (-1, ln))
    if not rej and (not r.finished or r.distinct != 2 * len(cases)):
        log(r.out[-4000:])
        raise NoAnswer("TLC failed on " + module)
    rej = sorted(set(rej))
    log("judged %d cases with %s: %d rejected, %.1fs" % (len(cases), module, len(rej), r.wall))
    return rej, r


class Report:
    """Collects what a check covered; writes the evidence file; decides the exit code."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.bad = []
        self.assumptions = []
        self.dir = os.path.join(VERIF, "evidence")
        os.makedirs(self.dir, exist_ok=True)
        self.known = load_known(prop)
        self.seen_known = set()

    def model(self, name, r, count_states=True):
        self.cov.setdefault("models", {})[name] = {"distinct_states": r.distinct, "transitions": r.generated,
                                                   "depth": r.depth, "seconds": round(r.wall, 1)}
        if count_states:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated

    def traces(self, name, n):
        self.cov["traces_validated_against_impl"] += n
        s = self.cov.setdefault("traces", {})
        s[name] = s.get(name, 0) + n

    def sample(self, x, cap=4):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(x)

    def note(self, **kw):
        self.cov.update(kw)

    def violation(self, what, replay):
        """replay: JSON-able description of the failing case."""
        for k in self.known:
            if k["match"](what, replay):
                self.seen_known.add(k["line"])
                return
        n = len(self.bad)
        if n < 20:
            p = os.path.join(self.dir, "replay-%s-%d.json" % (self.prop, n))
            dump(p, {"property": self.prop, "what": what, "case": replay})
            self.bad.append((what, p))
        else:
            self.bad.append((what, self.bad[0][1]))

    def finish(self):
        for k in self.known:
            if k["always"] or k["line"] in self.seen_known:
                log("KNOWN-FINDING: property=%s %s" % (self.prop, k["line"]))
        ev = {"property": self.prop, "tier": "thorough" if thorough() else "quick", "seed": seed(), "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.bad)}
        dump(os.path.join(self.dir, self.prop + ".json"), ev)
        if self.bad:
            for what, p in self.bad[:5]:
                log("  " + str(what)[:600])
            log("%d rejected" % len(self.bad))
            log("VIOLATION property=%s replay=%s" % (self.prop, self.bad[0][1]))
            return 1
        log("OK property=%s (%d model states, %d traces, %.1fs)" % (
            self.prop, self.cov["states"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0


def load_known(prop):
    """known: lines `known: property=<id> key=<key> <text>`; key is matched against replay["key"]."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for ln in open(p):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", ln.strip())
        if m and m.group(1) == prop:
            key = m.group(2)
            out.append({"line": m.group(3), "always": False,
                        "match": lambda what, rep, key=key: isinstance(rep, dict) and rep.get("key") == key})
    return out
