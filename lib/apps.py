"""Applications in the in-memory browser: C22 (media queries), C23 (global styles of components), and the client side of C18 and C19."""
import copy
import json
import os
import random
import re

import dom
import registry as reg
import vlib as v
import yewssr

QUERIES = ["(a)", "(min-width: 10px)", "print"]


class Tree:
    """A tree of components that is edited; nodes are numbered from 0, the root is node 0."""

    def __init__(self, keyed=True):
        self.nodes, self.keyed = [], keyed
        self.add(None, "plain")

    def add(self, parent, kind, at=None, **k):
        n = len(self.nodes)
        x = dict({"kind": kind, "delay": 0, "via": 0, "text": "", "shape": 0, "v": "", "styled": False, "g": False, "fallback": False, "mgr": 0, "near": 0, "q": ""},
                 kids=[], ver=0, keyed=self.keyed, up=parent)
        x.update(k)
        self.nodes.append(x)
        if parent is not None:
            q = self.nodes[parent]["kids"]
            q.insert(len(q) if at is None else min(at, len(q)), n)
            self.touch(parent)
        return n

    def touch(self, n):
        while n is not None:
            self.nodes[n]["ver"] += 1
            n = self.nodes[n]["up"]

    def remove(self, n):
        up = self.nodes[n]["up"]
        self.nodes[up]["kids"].remove(n)
        self.nodes[n]["up"] = None
        self.touch(up)

    def set(self, n, **k):
        self.nodes[n].update(k)
        self.touch(n)

    def mounted(self):
        out = []

        def walk(n):
            out.append(n)
            for k in self.nodes[n]["kids"]:
                walk(k)
        walk(0)
        return out

    def snapshot(self):
        return copy.deepcopy(self.nodes)


def run_app(b, cases, d):
    return v.run_bin(b, "app", cases, d)


# ------------------------------------------------------------------------ C22
class MediaCase:
    def __init__(self, r, hydrate, keyed, size=None):
        self.r, self.t, self.hydrate = r, Tree(keyed), hydrate
        self.q = [{"q": q, "is": r.random() < 0.5} for q in QUERIES]
        self.flipped, self.ev, self.slots = set(), [], []
        for _ in range((r.choice([0, 1, 2, 3]) if size is None else size) + (1 if hydrate else 0)):
            self.place(hydrate)
        self.first = self.t.snapshot()
        self.first_slots = self.now()

    def place(self, server=False):
        r, t = self.r, self.t
        up = r.choice([0] + [n for n in t.mounted() if r.random() < 0.5])
        if r.random() < 0.25:
            up = t.add(up, r.choice(["plain", "susp"]), r.randrange(4), delay=r.choice([0, 0, 3]))
        kind = "media" if server or r.random() < 0.5 else "mq"
        return t.add(up, kind, r.randrange(4), q=r.choice(QUERIES), fallback=r.random() < 0.5)

    def media(self):
        return [n for n in self.t.mounted() if self.t.nodes[n]["kind"] in ("mq", "media")]

    def now(self):
        x = self.t.nodes
        return [{"n": n, "q": x[n]["q"], "prepared": x[n]["kind"] == "media", "fallback": x[n]["fallback"]} for n in self.media()]

    def event(self, op, q="", rush=False):
        self.ev.append({"op": op, "q": q, "rush": rush, "nodes": self.t.snapshot(), "slots": self.now()})

    def step(self):
        r, t = self.r, self.t
        x = r.random()
        ms = self.media()
        if x < 0.3:
            q = [q for q in QUERIES if q not in self.flipped]
            if q:
                self.flipped.add(r.choice(q))
                return self.event("flip", [z for z in QUERIES if z in self.flipped and z in q][0], r.random() < 0.2)
        if x < 0.55:
            self.flipped = set()
            return self.event("report", rush=r.random() < 0.1)
        y = r.random()
        if y < 0.45 and ms:
            n = r.choice(ms)
            t.set(n, q=r.choice(QUERIES))
        elif y < 0.65 or not ms:
            self.place()
        elif y < 0.85:
            n = r.choice([n for n in t.mounted() if n])
            t.remove(n)
        else:
            t.touch(r.choice(t.mounted()))
        self.event("edit", rush=r.random() < 0.15)

    def done(self):
        if self.flipped:
            self.event("report")
        for n in list(self.media()):
            if n in self.media() and self.r.random() < 0.6:
                self.t.remove(n)
                self.event("edit")
        return self

    def harness(self, html=""):
        return {"mgrs": [{"prefix": "stylist", "box": "", "append": True}], "nodes": self.first, "page": [], "html": html, "q": self.q,
                "ev": [{k: e[k] for k in ("op", "q", "rush", "nodes") if k != "nodes" or e["op"] == "edit"} for e in self.ev]}

    def trace(self, obs, server):
        ev = [{"op": "start", "q": "", "slots": self.first_slots, "rush": False}] + self.ev
        out = []
        for e, o in zip(ev, obs):
            out.append(dict({k: e[k] for k in ("op", "q", "slots", "rush")}, keyed=self.t.keyed,
                            **{k: o[k] for k in ("shown", "listening", "late", "panic", "errors")}))
        return {"q": self.q, "hydrated": self.hydrate, "server": server, "ev": out}


def from_model(r, h):
    """A history of the media model, made into a run of components."""
    c = MediaCase.__new__(MediaCase)
    c.r, c.t, c.hydrate = r, Tree(True), False
    c.q = [{"q": q, "is": False} for q in ("(a)", "(b)")]
    c.ev, c.flipped = [], set()
    c.first, c.first_slots = c.t.snapshot(), []
    at = {}
    for e in h:
        op = e["op"]
        if op in ("flip", "report"):
            c.event(op, e["q"])
            continue
        if op == "mount":
            at[e["n"]] = c.t.add(0, r.choice(["mq", "media"]), q=e["q"], fallback=r.random() < 0.5)
        elif op == "query":
            c.t.set(at[e["n"]], q=e["q"])
        elif op == "again":
            c.t.touch(at[e["n"]])
        else:
            c.t.remove(at.pop(e["n"]))
        c.event("edit")
    return c


def media_traces(b, cases, d, server=None):
    obs = run_app(b, [c.harness(x["html"]) for c, x in zip(cases, server)] if server else [c.harness() for c in cases], d)
    return [c.trace(o if isinstance(o, list) else [], server[k]["media"] if server else []) for k, (c, o) in enumerate(zip(cases, obs))]


def render_on_server(cases, d, mgrs=None):
    ssr = v.build("ssr", "vh-ssr")
    out = []
    for k in range(0, len(cases), 200):
        out += v.run_each(ssr, "run", [{"mgrs": mgrs[k + i] if mgrs else [{"prefix": "stylist", "rec": False}], "nodes": c.first, "html": True}
                                       for i, c in enumerate(cases[k:k + 200])], d)
    for o in out:
        if "html" not in o or o["died"]:
            raise v.NoAnswer("rendering on the server failed")
    return out


def judge_apps(rep, name, traces, d, module, env=None):
    reg.judge_traces(rep, name, traces, d, module=module, env=env)


def c22(rep):
    rep.model("MCMedia", v.model_check("MCMedia", "MCMedia-deep.cfg" if v.thorough() else "MCMedia.cfg"))
    b = dom.build()
    d = v.work("C22")
    r = random.Random(v.seed() * 7919 + 22)
    cfg = open(os.path.join(v.SPEC, "MCMedia.cfg")).read().replace("Record = FALSE", "Record = TRUE").replace("Allowed", "Allowed Export")
    hs, t = reg.exported(d, re.sub(r"MaxLen = \d+", "MaxLen = %d" % v.pick(5, 6), cfg), "MCMediaExport", module="MCMedia")
    rep.model("MCMedia/histories", t)
    total = len(hs)
    hs = r.sample(hs, min(total, v.pick(1500, 8000)))
    rep.note(model_histories={"in_model": total, "replayed": len(hs)})
    tr = media_traces(b, [from_model(r, h) for h in hs], d)
    judge_apps(rep, "model-histories", tr, d, "TraceMedia")
    cases = []
    for k in range(v.pick(400, 4000)):
        c = MediaCase(r, False, r.random() < 0.7)
        for _ in range(r.choice([4, 10, 20])):
            c.step()
        cases.append(c.done())
    for _ in range(v.pick(5, 30)):
        c = MediaCase(r, False, r.random() < 0.7, 40)
        for _ in range(20):
            c.step()
        cases.append(c.done())
    tr = media_traces(b, cases, d)
    judge_apps(rep, "random-runs", tr, d, "TraceMedia")
    rep.sample([{k: e[k] for k in ("op", "q", "shown")} for e in tr[0]["ev"][:6]])
    cases = []
    for k in range(v.pick(200, 2000)):
        c = MediaCase(r, True, r.random() < 0.7)
        for _ in range(r.choice([2, 5, 10])):
            c.step()
        cases.append(c.done())
    for _ in range(v.pick(5, 30)):
        c = MediaCase(r, True, r.random() < 0.7, 30)
        for _ in range(10):
            c.step()
        cases.append(c.done())
    judge_apps(rep, "hydrated-runs", media_traces(b, cases, d, render_on_server(cases, d)), d, "TraceMedia")
    v.clean(d)


# ------------------------------------------------------- C18, C19, C23 in a client
CONTAINERS = ["body", "div", "shadow", "frame", "frag", "loose"]
MODEL_KEYS = [(0, "red"), (2, "blue"), (3, "1px"), (4, "red")]


def client_mgrs(r, n=3, rec=False):
    out = [{"prefix": "stylist", "box": "", "append": True, "rec": False}]
    for box in r.sample(CONTAINERS, n - 1):
        out.append({"prefix": r.choice(["stylist", "p", "my-x", "q"]), "box": box, "append": r.random() < 0.7, "rec": rec and r.random() < 0.85})
    return out


def client_page(r):
    return [{"box": b, "k": r.choice(["text", "comment", "meta"]), "n": "%s%d" % (b, k), "id": "", "css": ""}
            for b in ["head"] + CONTAINERS for k in range(r.choice([0, 1, 2]))]


class StyleCase:
    """Components with scoped and global styles under providers, edited in many ways."""

    def __init__(self, r, size=5, hydrate=False, keyed=True, rush=0.0, globals_=0.4, delays=0.15, n_keys=None, n_mgrs=None):
        self.r, self.t, self.hydrate, self.rush = r, Tree(keyed), hydrate, rush
        self.mgrs, self.page = client_mgrs(r, n_mgrs or r.choice([2, 3, 4]), hydrate), client_page(r)
        self.keys = yewssr.some_keys(r, n_keys or r.choice([1, 2, 3]))
        self.globals, self.delays, self.ev = globals_, delays, []
        for _ in range(size):
            self.place()
        self.first, self.first_list = self.t.snapshot(), self.listed()

    def key(self):
        return self.r.choice(self.keys)

    def place(self):
        r, t = self.r, self.t
        ms = t.mounted()
        up = r.choice(ms if r.random() < 0.7 else ms[-2:])
        kind = r.choices(["scoped", "global", "prov", "box"], [1 - self.globals, self.globals, 0.5, 0.25])[0]
        x = yewssr.real(r, kind, self.key() if kind in ("scoped", "global") else None, self.delays)
        x["model"], x["kind"] = kind, x.pop("real")
        if x["kind"] == "media":
            x["kind"] = "plain"
        if kind == "prov":
            x["mgr"] = r.randrange(len(self.mgrs))
        k = x.pop("kind")
        return t.add(up, k, r.randrange(4), **x)

    def restyle(self, n, key):
        x = self.t.nodes[n]
        sh, val = key
        if x["kind"] in ("uselit", "useinl") and sh >= 2:
            sh = 0
        text = yewssr.SHAPES[sh] % val if "%" in yewssr.SHAPES[sh] else yewssr.SHAPES[sh]
        self.t.set(n, shape=sh, v=val, text=text)

    def listed(self):
        out, pos = [], {}

        def walk(n, up):
            x = self.t.nodes[n]
            pos[n] = len(out) + 1
            out.append({"n": n, "kind": x.get("model", "box"), "parent": up, "mgr": x["mgr"] + 1 if x["kind"] == "prov" else 0, "text": x["text"]})
            for k in x["kids"]:
                walk(k, pos[n])
        walk(0, 0)
        return out

    def event(self, op="edit", rush=False):
        self.ev.append({"op": op, "rush": rush, "turns": self.r.choice([0, 0, 1, 2, 3, 5, 9]) if rush else 0, "nodes": self.t.snapshot(), "list": self.listed() if op != "end" else []})

    def step(self):
        r, t = self.r, self.t
        y, m = r.random(), t.mounted()
        styled = [n for n in m if t.nodes[n].get("model") in ("scoped", "global")]
        prov = [n for n in m if t.nodes[n]["kind"] == "prov"]
        if y < 0.25 and styled:
            self.restyle(r.choice(styled), self.key() if r.random() < 0.7 else (r.randrange(6), r.choice(yewssr.VALUES)))
        elif y < 0.4 and prov:
            t.set(r.choice(prov), mgr=r.randrange(len(self.mgrs)))
        elif y < 0.65 or len(m) < 3:
            for _ in range(r.choice([1, 1, 2, 4])):
                self.place()
        elif y < 0.8:
            t.remove(r.choice([n for n in m if n]))
        elif y < 0.9:
            n = r.choice(m)
            r.shuffle(t.nodes[n]["kids"])
            t.touch(n)
        else:
            t.touch(r.choice(m))
        self.event(rush=r.random() < self.rush)

    def done(self):
        if self.ev and self.ev[-1]["rush"]:
            self.event()
        x = self.r.random()
        if x < 0.3:
            for n in list(self.t.mounted()):
                if n and n in self.t.mounted() and self.r.random() < 0.6:
                    self.t.remove(n)
                    self.event()
        if x < 0.6:
            self.event("end")
        return self

    def harness(self, server=None):
        page = list(self.page)
        if server:
            page += [{"box": m["box"] or "head", "k": "html", "html": h} for m, h in zip(self.mgrs, server["markup"]) if h]
        return {"mgrs": self.mgrs, "nodes": self.first, "page": page, "html": server["html"] if server else "", "q": [],
                "ev": [{k: e[k] for k in ("op", "rush", "turns", "nodes") if k != "nodes" or e["op"] == "edit"} for e in self.ev]}

    def trace(self, obs, server=None):
        texts, num = [], {}

        def t(x):
            if x["kind"] not in ("scoped", "global"):
                return 0
            if x["text"] not in num:
                texts.append(list(x["text"]))
                num[x["text"]] = len(texts)
            return num[x["text"]]
        out = []
        for e, o in zip([{"op": "start", "rush": False, "list": self.first_list}] + self.ev, obs):
            out.append({"op": e["op"], "rush": e["rush"], "nodes": [dict({k: x[k] for k in ("n", "kind", "parent", "mgr")}, t=t(x)) for x in e["list"]],
                        "els": [{"n": x["n"], "id": x["class"].split(" ")[0]} for x in o["els"]], "boxes": o["boxes"], "panic": o["panic"], "errors": o["errors"]})
        logs = [[{k: y[k] for k in ("g", "ast", "id")} for y in q] for q in server["logs"]] if server else []
        return {"mgrs": [{"prefix": m["prefix"], "box": m["box"] or "head", "rec": m["rec"]} for m in self.mgrs], "texts": texts,
                "hydrated": bool(server), "server": logs, "ev": out}


def app_traces(b, cases, d, server=None):
    obs = run_app(b, [c.harness(x) for c, x in zip(cases, server or [None] * len(cases))], d)
    return [c.trace(o if isinstance(o, list) else [], x) for c, o, x in zip(cases, obs, server or [None] * len(cases))]


def app_from_model(r, h):
    """A history of the application model, made into a run of components: every use is under a provider of its manager."""
    c = StyleCase.__new__(StyleCase)
    c.r, c.t, c.hydrate, c.rush, c.ev = r, Tree(r.random() < 0.7), False, 0, []
    c.mgrs, c.page = client_mgrs(r, 2), client_page(r)
    keys = dict(enumerate(r.sample(MODEL_KEYS, 3)))
    c.first, c.first_list = c.t.snapshot(), c.listed()
    at = {}
    for e in h:
        n = e["n"]
        if e["op"] == "unmount":
            c.t.remove(at.pop(n)[0])
        else:
            key = keys[e["key"]]
            m = e["mgr"] - 1
            if e["op"] == "mount":
                p = c.t.add(0, "prov", r.randrange(4), model="prov", mgr=m)
                x = yewssr.real(r, "global" if e["g"] else "scoped", key, 0.1)
                kind = x.pop("real")
                x.pop("kind")
                at[n] = (p, c.t.add(p, kind, model="global" if e["g"] else "scoped", **x))
            else:
                p, k = at[n]
                c.restyle(k, key)
                c.t.set(p, mgr=m)
                if c.t.nodes[k]["kind"] in ("uselit", "useinl") and key[0] >= 2:
                    c.t.nodes[k]["kind"] = "usetext"
        c.event()
    return c


def sharing(traces):
    return sum(1 for t in traces for e in t["ev"] if len({x["t"] for x in e["nodes"] if x["t"]}) < sum(1 for x in e["nodes"] if x["t"]))


def client_runs(rep, prop, d=None):
    """Model histories and random runs of client applications."""
    own = d is None
    d = d or v.work(prop)
    b = dom.build()
    r = random.Random(v.seed() * 7919 + 100 + int(prop[1:]))
    rep.model("MCApp", v.model_check("MCApp"))
    cfg = open(os.path.join(v.SPEC, "MCApp.cfg")).read().replace("Record = FALSE", "Record = TRUE").replace("GlobalWhileMounted", "GlobalWhileMounted Export")
    hs, t = reg.exported(d, re.sub(r"MaxLen = \d+", "MaxLen = %d" % v.pick(3, 4), cfg), "MCAppExport", module="MCApp")
    rep.model("MCApp/histories", t)
    total = len(hs)
    hs = r.sample(hs, min(total, v.pick(400, 4000)))
    rep.note(client_model_histories={"in_model": total, "replayed": len(hs)})
    env = {"PROP": prop}
    tr = app_traces(b, [app_from_model(r, h) for h in hs], d)
    judge_apps(rep, "client-model-histories", tr, d, "TraceApp", env)
    cases = []
    for k in range(v.pick(300, 3000)):
        c = StyleCase(r, r.choice([0, 3, 6, 12]), keyed=r.random() < 0.7, rush=r.choice([0, 0, 0.3]), globals_=0.7 if prop == "C23" else 0.3)
        for _ in range(r.choice([4, 8, 15])):
            c.step()
        cases.append(c.done())
    for _ in range(v.pick(6, 40)):        # large applications
        c = StyleCase(r, r.choice([40, 70]), keyed=r.random() < 0.7, globals_=0.5 if prop == "C23" else 0.3, n_keys=r.choice([3, 17, 40]), n_mgrs=r.choice([3, 7]))
        for _ in range(6):
            c.step()
        cases.append(c.done())
    tr = app_traces(b, cases, d)
    judge_apps(rep, "client-runs", tr, d, "TraceApp", env)
    rep.note(client_events=sum(len(t["ev"]) for t in tr), client_events_with_shared_styles=sharing(tr))
    if own:
        v.clean(d)


def hydrated_runs(rep, prop, d):
    b = dom.build()
    r = random.Random(v.seed() * 7919 + 200 + int(prop[1:]))
    cases = []
    for k in range(v.pick(300, 3000)):
        c = StyleCase(r, r.choice([3, 6, 12]), hydrate=True, keyed=r.random() < 0.7, rush=r.choice([0, 0, 0.3]))
        for _ in range(r.choice([1, 4, 8])):
            c.step()
        cases.append(c.done())
    for _ in range(v.pick(6, 40)):
        c = StyleCase(r, r.choice([40, 70]), hydrate=True, keyed=r.random() < 0.7, n_keys=r.choice([3, 17, 40]), n_mgrs=r.choice([3, 7]))
        for _ in range(4):
            c.step()
        cases.append(c.done())
    tr = app_traces(b, cases, d, render_on_server(cases, d, [c.mgrs for c in cases]))
    judge_apps(rep, "hydrated-runs", tr, d, "TraceApp", {"PROP": prop})


def c23(rep):
    client_runs(rep, "C23")


CHECKS = {"C22": c22, "C23": c23}
