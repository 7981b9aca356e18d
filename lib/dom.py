"""The browser side: C20 (style elements in the page), C22 (media queries), and C18/C19 in a client."""
import glob
import json
import os
import random
import shutil
import subprocess
import tarfile

import registry as reg
import vlib as v

HARNESS = os.path.join(v.VERIF, "harness", "dom")
PATCHED = os.path.join(v.BUILD, "patched")
SOURCES = {"wasm-bindgen": "0.2.130", "wasm-bindgen-macro-support": "0.2.130", "yew": "0.22.0"}


def registry_source(name, version, to):
    full = "%s-%s" % (name, version)
    reg = os.path.join(os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo"), "registry")
    for p in glob.glob(os.path.join(reg, "src", "*", full)):
        shutil.copytree(p, to)
        return
    for p in glob.glob(os.path.join(reg, "cache", "*", full + ".crate")):
        with tarfile.open(p) as t:
            t.extractall(os.path.dirname(to))
        os.rename(os.path.join(os.path.dirname(to), full), to)
        return
    raise v.NoAnswer("no source of " + full)


def prepare():
    """Sources of wasm-bindgen and yew, edited so that they run natively against an in-memory browser."""
    patches = {n: open(os.path.join(HARNESS, "patch", n + ".patch")).read() for n in SOURCES}
    patches["native"] = open(os.path.join(HARNESS, "patch", "native.rs")).read()
    stamp = os.path.join(PATCHED, "stamp")
    want = repr(sorted(patches.items()))
    if os.path.exists(stamp) and open(stamp).read() == want:
        return
    shutil.rmtree(PATCHED, ignore_errors=True)
    os.makedirs(PATCHED)
    for n, ver in SOURCES.items():
        to = os.path.join(PATCHED, n)
        registry_source(n, ver, to)
        p = subprocess.run(["patch", "-p1", "-s", "-d", to], input=patches[n], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise v.NoAnswer("patching %s failed: %s" % (n, p.stdout[-500:]))
    with open(os.path.join(PATCHED, "wasm-bindgen", "src", "native.rs"), "w") as f:
        f.write(patches["native"])
    with open(stamp, "w") as f:
        f.write(want)


def build():
    prepare()
    return v.build("dom", "vh-dom", extra_env={"RUSTC_WRAPPER": os.path.join(HARNESS, "rustc-wrapper.sh")})



MAIN_PAGE = ("head", "body", "div")
TREES = ("head", "body", "div", "shadow", "frame", "frag", "loose")
BOXES = TREES + ("text", "doc")
ODD = ["9x", "a b", "a.b", "-", "\u00e9", "#", "x>y", "a,b"]
UNSET = reg.UNSET


class DomHist(reg.Hist):
    """Random histories of managers with containers, styles, and other code that works on the page."""

    def __init__(self, r, w, n_static):
        super().__init__(r, w)
        self.page, self.where, self.static = [], {}, []
        for b in TREES:
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                k = r.choice(["text", "comment", "meta", "p"])
                self.page.append({"box": b, "k": k, "n": self.name(k), "id": "", "css": ""})
        for i in range(n_static):
            q = r.choice(reg.SAME)
            gl = r.random() < 0.3
            pre = r.choice(["stylist", "stylist", "p", ""] + ODD)
            x = {"box": r.choice(TREES), "k": "style", "id": "%s%s%08x%d" % (pre, "-global-" if gl else "-", r.getrandbits(32), i),
                 "css": "/* from the server */", "n": "", "g": gl, "prefix": pre, "text": r.choice(q)}
            self.page.append(x)
            self.static.append(x)
        for i in range(r.choice([0, 0, 1, 2])):      # somebody else's style elements
            self.page.append({"box": r.choice(TREES), "k": "style", "id": "other-%d" % i, "css": "a{b:c}", "n": ""})
        r.shuffle(self.page)

    def step(self):
        r, x = self.r, self.r.random()
        if x < self.w.get("other", 0.12):
            b = r.choice(TREES)
            if r.random() < 0.6:
                n = self.name("n")
                if r.random() < 0.3:
                    y = {"k": "style", "id": "foreign-" + n, "css": "x{y:z}", "n": ""}
                else:
                    y = {"k": r.choice(["text", "comment", "link"]), "n": n, "id": "", "css": ""}
                self.add("put", box=b, at=r.choice([0, 0, 1, 2, 99]), x=y)
            else:
                self.add("take", box=b, at=r.choice([0, 0, 1, 2, 4]))
            return
        if x < self.w.get("other", 0.12) + 0.02:
            self.add("mgr", m=self.name("m"), prefix=UNSET, box="", append=True, twice=False, nohead=True)
            return
        at = len(self.ev)
        super().step()
        for e in self.ev[at:]:
            self.complete(e)
        if self.static and r.random() < self.w.get("load", 0.1):
            self.load()

    def complete(self, e):
        r = self.r
        if e["op"] == "mgr" and "box" not in e:
            e.update(box=r.choice(self.w["boxes"] + [""]), append=r.random() < 0.5, twice=r.random() < 0.2, nohead=False)
            e["nohead"] = e["box"] != "" and r.random() < 0.1
            if r.random() < 0.2:
                e["prefix"] = r.choice(ODD)
            self.where[e["m"]] = e["box"] or "head"
        elif e["op"] == "mgrdefault":
            self.where[e["m"]] = "head"
        elif e["op"] == "mgrclone":
            self.where[e["m"]] = self.where[e["from"]]
        elif e["op"] == "create":
            if r.random() < self.w.get("fault", 0.08):
                e["fault"] = r.randrange(5)
            if not e["g"] and r.random() < 0.1:
                e["prefix"] = r.choice(ODD)

    def load(self):
        r = self.r
        m = [x for x in self.mgr if any(y["box"] == self.where[x] for y in self.static)]
        if not m:
            return
        m = r.choice(sorted(m))
        mine = [y for y in self.static if y["box"] == self.where[m]]
        mine = r.sample(mine, r.randint(1, len(mine)))
        for y in mine:
            self.static.remove(y)
        if r.random() < 0.2:        # recorded by the server, but not on this page
            mine = mine + [dict(mine[0], id=mine[0]["id"] + "x", text=r.choice(r.choice(reg.SAME)))]
        self.add("load", m=m, data=[{"g": y["g"], "prefix": y["prefix"], "text": y["text"], "chars": list(y["text"]), "id": y["id"]} for y in mine])

    def leave(self):
        """In the end everything is let go of, in some order."""
        r = self.r
        for h in list(self.hnd):
            if r.random() < 0.3:
                self.add("unreg", h=h)
        rest = [("drop", {"h": h}) for h in self.hnd] + [("mgrdrop", {"m": m}) for m in self.mgr]
        r.shuffle(rest)
        for op, k in rest:
            self.add(op, **k)
        return {"page": self.page, "ev": self.ev}


def dom_history(r, n, pool=None):
    boxes = r.choice([list(BOXES), list(TREES), ["head", "shadow", "frame"], ["head"], ["body", "text"]])
    h = DomHist(r, {"boxes": boxes, "unreg": 2.5, "mgrdrop": 0.8, "writer": 0, "load": r.choice([0, 0.15]), "fault": r.choice([0, 0.08, 0.3]),
                    "other": r.choice([0, 0.12, 0.3]), "maxmgr": 4}, r.choice([0, 0, 3, 6]))
    h.pool = pool or h.pool
    for _ in range(n):
        h.step()
    for h2 in list(h.hnd):
        h.add("look", h=h2)
    return h.leave()


DOM_CFG = """CONSTANTS
  MaxLen = {n}
  Boxes = {boxes}
  Appends = {appends}
  Sheets = {sheets}
  Record = TRUE
  Handles = {handles}
  Faults = {faults}
  MaxOther = {other}
SPECIFICATION Spec
VIEW View
INVARIANTS RegistrySound InDocument ServerElements Export
CHECK_DEADLOCK FALSE
"""


def concrete(r, ev, boxes):
    page = []
    for b in boxes:
        if b in TREES:
            page.append({"box": b, "k": "text", "n": "t" + b, "id": "", "css": ""})
            page.append({"box": b, "k": "style", "n": "", "id": "S" + b, "css": "server"})
    out, hnd, mgr = [], [], []
    for e in ev:
        e = dict(e, th=0)
        op = e["op"]
        if op == "create":
            n = e.pop("n")
            e.update(g=False, prefix=UNSET, chars=list(e["text"]), via=r.choice(reg.VIAS))
            if n:
                e["fault"] = r.randrange(4)
        elif op == "mgr":
            e.update(prefix=UNSET, twice=r.random() < 0.3, nohead=False)
        elif op == "put":
            e["x"] = {"k": r.choice(["text", "comment", "link"]), "n": e.pop("n"), "id": "", "css": ""}
        elif op == "load":
            t = "c:d;"
            e["data"] = [{"g": False, "prefix": "stylist", "text": t, "chars": list(t), "id": e["id"]}]
        if op in ("create", "clone"):
            hnd.append(e["h"])
        elif op == "drop":
            hnd.remove(e["h"])
        elif op in ("mgr", "mgrclone"):
            mgr.append(e["m"])
        elif op == "mgrdrop":
            mgr.remove(e["m"])
        out.append(e)
    for h in sorted(set(hnd)):
        out.append({"op": "look", "h": h, "th": 0})
    rest = [{"op": "drop", "h": h, "th": 0} for h in sorted(set(hnd))] + [{"op": "mgrdrop", "m": m, "th": 0} for m in mgr]
    r.shuffle(rest)
    return {"page": page, "ev": out + rest}


def run_dom(rep, b, d, name, cases):
    obs = v.run_bin(b, "dom", cases, d)
    traces = []
    for c, o in zip(cases, obs):
        if o.get("died"):
            rep.violation("%s: a history killed the process: %s" % (name, o.get("why")), c)
        else:
            traces.append(o)
    reg.judge_traces(rep, name, traces, d, module="TraceDom")
    return traces


# (script, boxes, appends, sheets, faults)
DOM_SHAPES = {
    "held": ("mgr|create|create clone put|unreg drop put|unreg create drop mgrdrop|drop create|drop unreg", '{"head", "shadow"}', "{TRUE, FALSE}", '{"a:b;"}', "{0}"),
    "order": ("mgr|create put|create put|mgr mgrclone|create|unreg drop|create|drop unreg", '{"body"}', "{TRUE, FALSE}", '{"a:b;", "c:d;"}', "{0}"),
    "failing": ("mgr|create|create|mgr create|create unreg drop|create drop", '{"frame", "text", "doc"}', "{TRUE, FALSE}", '{"a:b;"}', "{0, 1}"),
    "loaded": ("mgr|load create|create load|create clone|unreg drop mgrdrop|unreg drop create|unreg drop create", '{"head", "div"}', "{FALSE}", '{"c:d;"}', "{0}"),
    "removed": ("mgr|create|take put|create unreg clone|take drop unreg|unreg drop create", '{"frag"}', "{TRUE, FALSE}", '{"a:b;"}', "{0}"),
    "elsewhere": ("mgr|create|mgr|create|unreg drop mgrdrop|unreg drop create", '{"shadow", "frame", "frag", "loose"}', "{TRUE}", '{"a:b;"}', "{0}"),
}


def c20(rep):
    rep.model("MCDom", v.model_check("MCDom", "MCDom-deep.cfg" if v.thorough() else "MCDom.cfg"))
    b = build()
    d = v.work("C20")
    r = random.Random(v.seed() * 7919 + 20)
    cases = []
    for name, (script, boxes, appends, sheets, faults) in DOM_SHAPES.items():
        script = [x.strip() for x in script.split("|")]
        cfg = DOM_CFG.format(n=len(script), boxes=boxes, appends=appends, sheets=sheets, faults=faults,
                             handles='{"h1", "h2", "h3"}', other=v.pick(1, 2))
        hs, t = reg.exported(d, cfg, "MCDomExport", script, module="MCDom")
        rep.model("MCDom/" + name, t)
        total = len(hs)
        cap = v.pick(500, 6000)
        if total > cap:
            hs = r.sample(hs, cap)
        rep.note(**{"histories_" + name: {"in_model": total, "replayed": len(hs), "length": len(script)}})
        cases += [concrete(r, h, json.loads(boxes.replace("{", "[").replace("}", "]"))) for h in hs]
    tr = run_dom(rep, b, d, "model-histories", cases)
    rep.sample([{k: x for k, x in e.items() if k != "chars"} for e in tr[0]["ev"][:3]] if tr else [])
    run_dom(rep, b, d, "random-histories", [dom_history(r, r.choice([6, 15, 30])) for _ in range(v.pick(300, 4000))])
    many = [["a:b%d;" % k, " a : b%d ;" % k] for k in range(100)]
    run_dom(rep, b, d, "many-styles", [dom_history(r, n, many) for n in [100, 200] * v.pick(2, 10)])
    v.clean(d)


CHECKS = {"C20": c20}
