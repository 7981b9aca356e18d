"""Checks over histories of managers, styles and recorded data: C01-C06, C21."""
import json
import os
import random
import re

import gen_css as g
import parsing
import vlib as v

VIAS = ["str", "string", "cow", "sheet", "clone", "rebuilt", "source"]
# groups of texts for the same stylesheet, written differently
SAME = [
    ["color: red;", " color :red ;", "color:red;/* c */", "\n\tcolor: red;"],
    ["color: blue;", "color:blue;"],
    ["color: red; color: blue;", "color:red;color:blue;"],
    ["color: blue; color: red;"],
    [".a { color: red; }", ".a{color:red}", ".a{\ncolor : red ; }"],
    [".a, .b { color: red; }", ".a,.b{color:red}"],
    [".b, .a { color: red; }"],
    ["& { color: red; }"],
    ["@media print { color: red; }", "@media print{color:red;}"],
    ["@media screen { color: red; }"],
    ["@media print { .a { color: red; } }"],
    [".a { @media print { color: red; } }"],
    ["@keyframes k { from { width: 0; } to { width: 1px; } }", "@keyframes k{from{width:0}to{width:1px}}"],
    ["@keyframes k { }", "@keyframes k{}"],
    ["", " ", "/* nothing */"],
    ["content: \"</style><b>\";"],
    ["content: \"</STYLE >&lt;</sTyLe\"; --x: </style;"],
    ["content: '< /style </styl </ style';"],
    [".x[title=\"</style>\"]:hover, & { --y: \"<!-- & <script>\"; }"],
    ["color: \u00e9\u4e2d\U0001F600;"],
    [".n { }", ".n{}"],
    [":root { --a: 1; }"],
    ["a:hover { b: c; }"],
    ["html, body { font-family: \"A\", sans-serif; }"],
]
BROKEN = ["color: red", "{", ".a {", "color red;", "}"]
UNSET = "(unset)"
PREFIXES = [UNSET, UNSET, UNSET, "", "p", "my-x", "stylist", "stylist-global", "a-1", "P"]


def r_tree(r):
    return r.random() < 0.7


class Hist:
    """Random histories, valid by construction (names exist when used)."""

    def __init__(self, r, w, lanes=1, pool=None, texts=None):
        self.r, self.w, self.lanes = r, w, lanes
        self.ev, self.mgr, self.hnd, self.wr, self.dat = [], {}, {}, set(), {}
        self.n = 0
        self.pool = pool or r.sample(SAME, r.choice([2, 3, 4]))
        self.free_texts = texts or []
        self.trees, self.cut = [], self.r.choice([0, 0, 1, 2, 10, 31])      # where strings are cut is part of what they are
        self.own = {}

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def add(self, op, **k):
        k["op"] = op
        k.setdefault("th", 0)
        self.ev.append(k)

    def text(self):
        x = self.r.random()
        if x < self.w.get("broken", 0.03):
            return self.r.choice(BROKEN)
        if self.free_texts and x < 0.4:
            return self.r.choice(self.free_texts)
        return self.r.choice(self.r.choice(self.pool))

    def create(self, m=None, text=None, g=None, prefix=None):
        lane_m = [(k, t) for k, t in self.mgr.items()]
        use_default = m is None and (not lane_m or self.r.random() < self.w.get("default", 0.25))
        h = self.name("h")
        if m is not None:
            th = self.mgr[m]
        elif use_default:
            m, th = "", self.r.randrange(self.lanes)
        else:
            m, th = self.r.choice(lane_m)
        gl = self.r.random() < self.w.get("global", 0.3) if g is None else g
        t = self.text() if text is None else text
        tree = {}
        if self.trees and text is None and r_tree(self.r):
            tree = {"ast": self.r.choice(self.trees), "borrow": self.r.getrandbits(60), "cut": self.cut}
            t = ""
        p = UNSET if gl else (self.r.choice(PREFIXES) if prefix is None else prefix)
        self.add("create", h=h, m=m, g=gl, prefix=p, text=t, chars=list(t), via="tree" if tree else self.r.choice(VIAS), th=th, **tree)
        self.hnd[h] = th
        return h

    def forget_failed(self):
        """Handles whose creation fails do not exist; the driver must not use them."""

    def step(self):
        r = self.r
        ops = {"create": 10, "mgr": 2 if len(self.mgr) < self.w.get("maxmgr", 4) else 0.1, "mgrdefault": self.w.get("mgrdefault", 0.5)}
        if self.mgr:
            ops.update(mgrclone=0.7, mgrdrop=self.w.get("mgrdrop", 0.5), mgreq=0.5)
        if self.hnd:
            ops.update(clone=1.5, drop=2, unreg=self.w.get("unreg", 3), look=1.5)
        if self.wr:
            ops["read"] = self.w.get("read", 0.4)
        if self.dat:
            ops.update(dclone=0.3, dser=self.w.get("dser", 0.7), markup=self.w.get("markup", 0.7), load=self.w.get("load", 1) if self.mgr else 0)
        op = r.choices(list(ops), list(ops.values()))[0]
        if op == "create":
            self.create()
        elif op == "mgr":
            m = self.name("m")
            th = r.randrange(self.lanes)
            w = self.name("w") if r.random() < self.w.get("writer", 0.3) else ""
            self.add("mgr", m=m, prefix=r.choice(PREFIXES), w=w, th=th)
            self.mgr[m] = th
            if w:
                self.wr.add(w)
                self.own[w] = m
        elif op == "mgrdefault":
            m = self.name("m")
            th = r.randrange(self.lanes)
            self.add("mgrdefault", m=m, th=th)
            self.mgr[m] = th
        elif op == "mgrclone":
            f = r.choice(list(self.mgr))
            m = self.name("m")
            self.add("mgrclone", m=m, **{"from": f}, th=self.mgr[f])
            self.mgr[m] = self.mgr[f]
        elif op == "mgrdrop":
            m = r.choice(list(self.mgr))
            self.add("mgrdrop", m=m, th=self.mgr.pop(m))
        elif op == "mgreq":
            m = r.choice(list(self.mgr))
            m2 = r.choice([x for x in self.mgr if self.mgr[x] == self.mgr[m]])
            self.add("mgreq", m=m, m2=m2, th=self.mgr[m])
        elif op == "clone":
            f = r.choice(list(self.hnd))
            h = self.name("h")
            self.add("clone", h=h, **{"from": f}, th=self.hnd[f])
            self.hnd[h] = self.hnd[f]
        elif op in ("drop", "unreg", "look"):
            h = r.choice(list(self.hnd))
            self.add(op, h=h, th=self.hnd[h])
            if op == "drop":
                del self.hnd[h]
        elif op == "read":
            w = r.choice(sorted(self.wr))
            self.wr.remove(w)
            d = self.name("d")
            self.add("read", w=w, d=d, th=r.randrange(self.lanes))
            self.dat[d] = 1
        elif op in ("dclone", "dser"):
            f = r.choice(sorted(self.dat))
            d = self.name("d")
            self.add(op, d=d, **{"from": f}, th=r.randrange(self.lanes), **({"fmt": r.choice(["json", "bincode"])} if op == "dser" else {}))
            self.dat[d] = 1
        elif op == "markup":
            self.add("markup", d=r.choice(sorted(self.dat)), th=r.randrange(self.lanes))
        elif op == "load":
            m = r.choice(list(self.mgr))
            self.add("load", d=r.choice(sorted(self.dat)), m=m, th=self.mgr[m])

    def probes(self):
        """Make hidden state visible: look at every handle, ask every manager for every style."""
        for h, th in list(self.hnd.items()):
            self.add("look", h=h, th=th)
        for m in list(self.mgr):
            for q in self.pool:
                self.create(m=m, text=self.r.choice(q), g=False, prefix=UNSET)
            self.create(m=m, text=self.r.choice(self.pool[0]), g=True)
        for w in sorted(self.wr):
            d = self.name("d")
            self.add("read", w=w, d=d)
            self.dat[d] = 1
        self.wr = set()
        for d in sorted(self.dat):
            self.add("markup", d=d)
        for h, th in list(self.hnd.items()):
            self.add("look", h=h, th=th)
        return self


# values (names, selectors, conditions) that break a stylesheet they are interpolated into, and some
# that look as if they did
EVIL = ["red; }", "}", "{", "a{b", "red; } .x {", "\"", "'", "\"a", "a\"", "/*", "*/", "/* a", "a */", "red;", ";", "", " ", "a; b: c", "a; b", "url(", ")", "(a", "[",
        "]", "\\", "a\\", "\"a\\\"", "<b>", "</style>", "${", "${a", "}}", "a}b{c", "@media x {", "@", "!", "\n", "a\nb", "a:b", ":", "a,", ",", ",b",
        "/**/", "a /* b */ c", "\"a;b\"", "'}'", "(;)", "({)", "[}]", "\u00e9", "a\u2028b", "red !important", "1px", "#", "&", "&{", "x y", "--", "a--b"]
GOOD = ["red", "1px solid", "\"x\"", "calc(1px + 2px)", "a", "b c"]


def leaves(q, out):
    for n in q:
        for k in range(len(n["s"])):
            out.append((n, k))
        if n["t"] == "a":
            out.append((n, -1))
        leaves(n["c"], out)
    return out


def interpolated(r):
    """A tree as a macro would build it, with up to two values from outside put in."""
    t = g.top(r, 1)
    t = t or [g.block([], [g.decl(r)])]
    for n, k in leaves(t, []):
        for f, x in (("v", n["v"]),) if k < 0 else (("s", n["s"][k]),):
            y = re.sub(r"\$\{\w+\}", "z", x)
            y = y.replace("\U0001F600", "\u2603")
            if f == "v":
                n["v"] = y
            else:
                n["s"][k] = y
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        n, k = r.choice(leaves(t, []) or [(None, 0)])
        if n is None:
            break
        e = r.choice(EVIL + GOOD)
        old = n["v"] if k < 0 else n["s"][k]
        at = r.choice([0, len(old), r.randint(0, len(old))])
        new = r.choice([e, e, old + e, e + old, old[:at] + e + old[at:]])
        if k < 0:
            n["v"] = new
        else:
            n["s"][k] = new
    return t


def tree_of(text):
    """The trees of the stylesheets in model histories."""
    if text.startswith("!"):
        d = {"t": "a", "s": ["a"], "v": EVIL[int(text[1:])], "c": []}
    else:
        a, b = text.rstrip(";").split(":")
        d = {"t": "a", "s": [a], "v": b, "c": []}
    return [g.block([], [d])]


FAILS = set(BROKEN)


def drop_failed(ev):
    """Remove events on handles whose text does not parse (they never come to exist)."""
    dead, out = set(), []
    for e in ev:
        if e["op"] == "create" and e["text"] in FAILS:
            dead.add(e["h"])
        elif e["op"] == "clone" and e["from"] in dead:
            dead.add(e["h"])
            continue
        elif e["op"] in ("drop", "unreg", "look") and e["h"] in dead:
            continue
        out.append(e)
    return out


def history(r, weights, n, lanes=1, texts=None):
    h = Hist(r, weights, lanes, texts=texts)
    for _ in range(n):
        h.step()
    return drop_failed(h.probes().ev)


def exported(d, cfg_text, name, script=None, module="MCRegistry"):
    """Histories written out by TLC from the registry model, optionally of a given shape."""
    p = os.path.join(d, name + ".cfg")
    open(p, "w").write(cfg_text)
    env = {}
    if script:
        env["SCRIPT"] = p + ".script"
        v.dump_nd(env["SCRIPT"], [{"ops": x.split()} for x in script])
    r = v.tlc(module, p, env=env, workers=v.CORES)
    if not r.finished:
        v.log(r.out[-3000:])
        raise v.NoAnswer("exporting histories failed")
    out = []
    for ln in r.prints:
        m = re.match(r'<<"HIST", "(.*)">>$', ln)
        if m:
            out.append(json.loads(json.loads('"' + m.group(1) + '"')))
    out.sort(key=json.dumps)
    return out, r


CFG = """CONSTANTS
  MaxLen = {n}
  Lanes = {lanes}
  Sheets = {sheets}
  Kinds = {kinds}
  Prefixes = {prefixes}
  Record = TRUE
  WithData = {data}
  Handles = {handles}
SPECIFICATION Spec
VIEW View
INVARIANTS IdsUnique RegistrySound LogExact Export
CHECK_DEADLOCK FALSE
"""


def concretise(r, ev, trees=False):
    """Complete a model history with the harness's extra fields and with probes."""
    out, hnd, mgr, wr, dat = [], {}, {}, set(), []
    lanes = set()
    for e in ev:
        e = dict(e)
        e.setdefault("th", 0)
        if e["op"] == "create":
            if e["text"].startswith("!"):
                e.update(ast=tree_of(e["text"]), text="", chars=[])
            elif trees and r.random() < 0.4:
                e.update(ast=tree_of(e["text"]), chars=[], text="", via="tree", borrow=r.getrandbits(60))
            else:
                e["chars"] = list(e["text"])
                e["via"] = r.choice(VIAS)
            hnd[e["h"]] = e["th"]
            if e["m"] == "":
                lanes.add(e["th"])
        elif e["op"] == "clone":
            hnd[e["h"]] = e["th"]
        elif e["op"] == "drop":
            hnd.pop(e["h"])
        elif e["op"] in ("mgr", "mgrclone"):
            mgr[e["m"]] = e["th"]
            if e.get("w"):
                wr.add(e["w"])
        elif e["op"] == "mgrdrop":
            mgr.pop(e["m"])
        elif e["op"] == "read":
            wr.discard(e["w"])
            dat.append(e["d"])
        elif e["op"] == "dser":
            dat.append(e["d"])
        out.append(e)
    k = [0]

    def probe(m, th, t, gl):
        k[0] += 1
        out.append({"op": "create", "h": "z%d" % k[0], "m": m, "g": gl, "prefix": UNSET, "text": t, "chars": list(t), "via": "str", "th": th})
    for h, th in hnd.items():
        out.append({"op": "look", "h": h, "th": th})
    for m, th in mgr.items():
        for t in ("a:b;", "c:d;"):
            for gl in (False, True):
                probe(m, th, t, gl)
    for th in sorted(lanes):
        for t in ("a:b;", "c:d;"):
            probe("", th, t, False)
    for w in sorted(wr):
        out.append({"op": "read", "w": w, "d": "D" + w, "th": 0})
        dat.append("D" + w)
    for x in dat:
        out.append({"op": "markup", "d": x, "th": 0})
    for h, th in hnd.items():
        out.append({"op": "look", "h": h, "th": th})
    return out


def judge_traces(rep, name, traces, d, module="TraceRegistry", counter=False, in_order=False, env=None):
    p_env = {"COUNTER": "1"} if counter else {}
    p_env.update(env or {})
    if in_order:
        p_env["COUNTER_IN_ORDER"] = "1"
    p = os.path.join(d, "traces-%s.ndjson" % name)
    whole = [t if isinstance(t, dict) else {"ev": t} for t in traces]
    traces = [t["ev"] for t in whole]
    v.dump_nd(p, whole)
    r = v.tlc(module, env=dict(p_env, CASES=p), args=["-continue"])
    rej = []
    for ln in r.rejected():
        m = re.match(r'<<"REJECTED", (\d+), (\d+), "([^"]*)", (.*)>>$', ln)
        rej.append((int(m.group(1)) - 1, int(m.group(2)) - 1, m.group(3)) if m else (0, 0, ln))
    want = sum(len(t) + 2 for t in traces)
    if not rej and (not r.finished or r.distinct != want):
        v.log(r.out[-3000:])
        if "is violated" in r.out:
            rep.violation("%s: an invariant of the model is violated on a recorded history" % name, {"tlc": r.out[-3000:]})
        else:
            raise v.NoAnswer("trace checking with %s failed (%d of %d states)" % (module, r.distinct, want))
    rep.model(module + "/" + name, r)
    rep.traces(name, len(traces))
    v.log("validated %d traces (%d events) with %s: %d rejected, %.1fs" % (len(traces), sum(map(len, traces)), module, len(rej), r.wall))
    for t, i, why in sorted(rej):
        rep.violation("%s: event %d of history %d (%s): %s" % (name, i, t, brief(traces[t][i]) if traces else "", why),
                      dict(whole[t], ev=traces[t][:i + 1], why=why))
    return r


def brief(e):
    return json.dumps({k: x for k, x in e.items() if k not in ("chars", "boxes", "data") and x != ""})


def run_histories(rep, binary, d, name, hists, counter=False, cmd="reg", lean=()):
    """Record the histories (those of `lean` in the build without debug assertions) and validate them."""
    traces = []
    for b, hh, slim in ((binary, hists, False), (binary.lean, lean, True)):
        if not hh or not b:
            continue
        for h, o in zip(hh, v.run_each(b, cmd, hh, d)):
            if isinstance(o, dict):
                rep.violation("%s: a history killed the process: %s" % (name, o.get("why")), {"history": h})
            else:
                traces.append({"ev": o, "lean": slim})
    judge_traces(rep, name, traces, d, counter=counter)
    return [t["ev"] for t in traces]


def slim(r, hs, n):
    """Some of the histories again, for the lean build."""
    return r.sample(hs, min(n, len(hs)))


def design(rep, deep=False):
    r = v.model_check("MCRegistry", "MCRegistry-deep.cfg" if v.thorough() else "MCRegistry.cfg")
    rep.model("MCRegistry", r)


# what the lean build needs besides names
DATA = {"C04": "random,ssr,hydration", "C05": "random,ssr,hydration", "C06": "random,ssr,hydration"}


def exhaustive(rep, b, d, r, kinds="{FALSE}", prefixes='{"(unset)"}', lanes="{0}", data="FALSE", n=4, sheets='{"a:b;"}', cap=None,
               script=None, handles='{"h1", "h2"}', name="model-histories"):
    if script:
        n = len(script)
    hs, t = exported(d, CFG.format(n=n, kinds=kinds, prefixes=prefixes, lanes=lanes, data=data, sheets=sheets, handles=handles),
                     "MCRegistryExport", script)
    rep.model("MCRegistry/" + name, t)
    total = len(hs)
    if not total:
        raise v.NoAnswer("no histories of shape " + name)
    if cap and len(hs) > cap:
        hs = r.sample(hs, cap)
    rep.note(**{name.replace("-", "_"): {"in_model": total, "replayed": len(hs), "length": n}})
    hs = [concretise(r, h, rep.prop == "C24") for h in hs]
    run_histories(rep, b, d, name, hs, lean=slim(r, hs, v.pick(150, 3000)) if data == "FALSE" or rep.prop in DATA else [])


def free_texts(r, n):
    out = []
    while len(out) < n:
        t = g.text(r, g.sheet(r), 1)
        if len(t) < 160 and "${" not in t:
            out.append(t)
    return out


def check(weights, lanes, salt, ex):
    def f(rep):
        design(rep)
        b = parsing.core(DATA.get(rep.prop, "random"))
        d = v.work(rep.prop)
        r = random.Random(v.seed() * 7919 + salt)
        exhaustive(rep, b, d, r, **{k: (x[v.thorough()] if isinstance(x, tuple) else x) for k, x in ex.items()})
        n = v.pick(150, 1500)
        hs = [history(r, weights, r.choice([6, 15, 30]), r.choice(lanes), free_texts(r, 3)) for _ in range(n)]
        wl = weights if rep.prop in DATA else dict(weights, writer=0)
        hl = [history(r, wl, r.choice([6, 15, 30]), r.choice(lanes), free_texts(r, 3)) for _ in range(v.pick(50, 500))]
        tr = run_histories(rep, b, d, "random-histories", hs, lean=hl)
        rep.sample([{k: x for k, x in e.items() if k != "chars"} for e in tr[0][:6]] if tr else [])
        if rep.prop in SHAPES:
            shapes(rep, b, d, r)
        extra = EXTRA.get(rep.prop)
        if extra:
            extra(rep, b, d, r)
        v.clean(d)
    return f


def extra_threads(rep, b, d, r):
    """Free-running threads on their default managers; judged per thread, ids unique over all."""
    rounds = v.pick(3, 20)
    every = []
    for _ in range(rounds):
        hs = []
        for th in range(8):
            h = Hist(r, {"default": 0.7, "mgrdefault": 1}, 1)
            for _ in range(25):
                h.step()
            hs.append(drop_failed(h.probes().ev))
        out = v.run_bin(b, "regthreads", hs, d)
        every += out
    judge_traces(rep, "free-threads", every, d)
    merged_ids(rep, b, d, every)


def merged_ids(rep, b, d, traces):
    """The same logs again, interleaved into one history per round: ids are unique process-wide."""
    rounds = [traces[i:i + 8] for i in range(0, len(traces), 8)]
    out = []
    for ts in rounds:
        m = []
        for k, t in enumerate(ts):
            for e in t:
                e = dict(e, th=k)
                for f in ("m", "m2", "h", "from", "w", "d"):
                    if e.get(f):
                        e[f] = "%s_%d" % (e[f], k)
                m.append(e)
        out.append(m)
    judge_traces(rep, "merged-threads", out, d)


def extra_markup(rep, b, d, r):
    """Markup of single styles over many CSS contents around the end tag."""
    bits = ["</style", "</STYLE", "</sTyle>", "<", "/", "style", "</", "<style>", "\\", "\"", "x", "</ style", "<!--", "-->", "]]>", "&", "</script>", "<\\/style",
            "\n", "\u00e9", "</stylE\n>", "</styl"]
    hs = []
    for _ in range(v.pick(150, 1500)):
        h = Hist(r, {})
        h.add("mgr", m="m", prefix=r.choice([UNSET, "", "p", "a-b"]), w="w")
        h.mgr["m"] = 0
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            body = "".join(r.choice(bits) for _ in range(r.randint(1, 6)))
            if body.endswith("\\"):
                body += "x"
            q = "'" if '"' in body else '"'
            t = r.choice(["content: %s%s%s;", "[a=%s%s%s] { b: c; }", "@media (x: %s%s%s) { a: b; }"]) % (q, body.replace(q, ""), q)
            h.create(m="m", text=t)
        h.add("read", w="w", d="d")
        h.add("markup", d="d")
        hs.append(h.ev)
    run_histories(rep, b, d, "markup", hs)


def tight(rep, b, d, name):
    """Threads that create and unregister as fast as they can."""
    cases = []
    for n in v.pick([10000, 4000, 4000], [40000] + [10000] * 19):
        cases.append(dict(v.run_bin(b, "regtight", {"threads": 8, "n": n}, d), n=n))
    rej, j = v.judge("JudgeIds", cases, d)
    rep.model("JudgeIds/" + name, j)
    rep.traces(name, len(cases))
    rep.note(**{name.replace("-", "_"): {"threads": 8, "styles": sum(8 * c["n"] for c in cases)}})
    for k, why in rej:
        rep.violation("%s: round %d of free-running threads: %s" % (name, k, why), {"round": k, "why": why, "repeated": repeated(cases[k]["ids"])})


def repeated(ids):
    seen, out = set(), []
    for q in ids:
        for x in q:
            if x in seen:
                out.append(x)
            seen.add(x)
    return out[:20]


def extra_c03(rep, b, d, r):
    extra_threads(rep, b, d, r)
    tight(rep, b, d, "free-running-ids")


# Shapes of histories: for each position the operations allowed there.  TLC produces every history
# of each shape; (script, lanes, kinds, prefixes, sheets) with the thorough variant second.
ONE, TWO = '{"a:b;"}', '{"a:b;", "c:d;"}'
SCOPED, BOTH = "{FALSE}", "{FALSE, TRUE}"
NOP, EMP = '{"(unset)"}', '{"(unset)", ""}'
SHAPES = {
    "C01": {
        "reuse": ("mgr|create|create clone|create drop|create drop|create", "{0}", BOTH, EMP, TWO),
        "forget": ("mgr|create|create|unreg drop|unreg create mgrclone|create|create", "{0}", BOTH, NOP, ONE),
        "default": ("default|mgr default|default create|unreg drop default|default create|default", "{0, 1}", SCOPED, NOP, TWO),
        "loaded": ("mgrw|create|read|mgr|load create|create clone|load unreg|create", "{0}", SCOPED, NOP, ONE),
    },
    "C02": {
        "again": ("mgr|create|create clone|unreg drop|unreg create drop|create unreg clone|create unreg|create", "{0}", SCOPED, NOP, ONE),
        "two-sheets": ("mgr|create|create|unreg|create unreg|unreg drop|create", "{0}", BOTH, NOP, TWO),
        "managers": ("mgr|create|mgr mgrclone|create|unreg mgrdrop|unreg create|create", "{0}", BOTH, NOP, ONE),
        "loaded": ("mgrw|create|read|mgr|load|create|unreg|create load|create unreg", "{0}", SCOPED, NOP, ONE),
    },
    "C03": {
        "two": ("mgr|mgr|create|create|unreg create|create", "{0, 1}", BOTH, EMP, ONE),
        "replaced": ("mgr|create|mgrdrop|mgr mgrclone|create unreg|create unreg|create", "{0}", BOTH, NOP, ONE),
        "threads": ("default|default|mgr|create default|unreg drop|default create", "{0, 1}", SCOPED, NOP, ONE),
        "loaded": ("mgrw|create|read|mgr|load create|load create|create unreg|create", "{0}", SCOPED, NOP, ONE),
    },
    "C04": {
        "recorded": ("mgrw|create|create unreg drop|create unreg drop|create unreg mgrdrop|read|create unreg", "{0}", BOTH, NOP, ONE),
        "two": ("mgrw|mgrw mgr|create|create|unreg create|read|read create|read", "{0, 1}", SCOPED, NOP, ONE),
        "loaded": ("mgrw|create|read|mgrw|load create|load create|read", "{0}", BOTH, NOP, ONE),
    },
    "C05": {
        "markup": ("mgrw|create|create unreg|read|dser|mgr|load", "{0}", BOTH, EMP, TWO),
    },
    # what the server recorded (repeatedly, forgotten in between), loaded by a fresh client;
    # clients that already know, knew or hold the style; two servers' data in one client
    "C06": {
        "load-fresh": ("mgrw|create|create unreg drop|create unreg drop|read|mgr|load|create drop|load create", "{0}", SCOPED, NOP, ONE),
        "load-used": ("mgrw|create|read|mgr|create|drop unreg create|load dser|load unreg create|create load", "{0}", SCOPED, NOP, ONE),
        "load-two": ("mgrw|create|mgrw|create|read|read|load mgrdrop|load drop unreg|load create", "{0}", SCOPED, NOP, ONE),
        "load-kinds": ("mgrw|create|create|read|mgr|load|create|create", "{0}", BOTH, EMP, ONE),
    },
}


def shapes(rep, b, d, r):
    for name, (script, lanes, kinds, prefixes, sheets) in SHAPES[rep.prop].items():
        exhaustive(rep, b, d, r, script=[x.strip() for x in script.split("|")], data='TRUE' if "mgrw" in script else "FALSE",
                   handles='{"h1", "h2", "h3", "h4"}', name=name, cap=v.pick(1200, 15000),
                   kinds=kinds, lanes=lanes, prefixes=prefixes, sheets=sheets)


def bulk(rep, b, d, r, **kw):
    """Few managers, many styles: registered, forgotten, asked for again."""
    hs = []
    for n in v.pick([70, 130], [70, 150, 260, 400]):
        h = Hist(r, {}, 1, pool=[["x:y;"]])
        h.add("mgr", m="m1", prefix=r.choice([UNSET, "p"]), w="w")
        h.add("mgr", m="m2", prefix="q", w="w2")
        h.mgr.update(m1=0, m2=0)
        made, gone = [], set()

        def again(k):
            t, gl = made[k]
            return h.create(m="m1", text=t, g=gl, prefix=UNSET)
        held = []
        for k in range(n):
            made.append((r.choice([".a%d{b:c;}", "a:b%d;", "@media m%d{a:b;}"]) % k, r.random() < 0.3))
            x = again(k)
            y = r.random()
            if y < 0.5:
                h.add("drop", h=x)
                del h.hnd[x]
            elif y < 0.65:
                h.add("unreg", h=x)
                gone.add(k)
            else:
                held.append(x)
            if r.random() < 0.2:
                again(r.randrange(len(made)))
            if r.random() < 0.05 and held:
                h.add("unreg", h=held.pop(r.randrange(len(held))))
            if r.random() < 0.05:
                h.create(m="m2", text=made[-1][0], g=made[-1][1], prefix=UNSET)
        for k in r.sample(range(n), min(n, v.pick(80, 200))):
            again(k)
        for x in r.sample(held, min(len(held), 20)):
            h.add("look", h=x)
        h.add("read", w="w", d="d")
        if not kw:
            for k in r.sample(range(n), n // 2):
                h.create(m="m2", text=made[k][0], g=made[k][1], prefix=UNSET)
            h.add("read", w="w2", d="d2")
            h.add("mgr", m="m3", prefix=UNSET, w="")
            h.mgr["m3"] = 0
            h.add("load", d="d2", m="m3")
            for k in r.sample(range(n), 30):
                h.create(m="m3", text=made[k][0], g=made[k][1], prefix=UNSET if made[k][1] else "q")
        hs.append(h.ev)
    rep.note(bulk_styles=[sum(e["op"] == "create" for e in h) for h in hs])
    if kw:
        obs = [v.run_bin(b, "reg", [h], d)[0] for h in hs]      # processes of their own
        judge_traces(rep, "many-styles", obs, d, **kw)
    else:
        run_histories(rep, b, d, "many-styles", hs)


EXTRA = {"C03": extra_c03, "C01": extra_c03, "C05": extra_markup, "C02": bulk, "C04": bulk, "C06": bulk}
SSR = {"writer": 0.9, "read": 1, "markup": 1.2, "maxmgr": 3}
HYD = {"writer": 0.6, "read": 1.5, "dser": 1.5, "load": 3, "markup": 0.4, "maxmgr": 4, "unreg": 1.5, "default": 0.1}


def counter(rep):
    """C21: the library built without the `random` feature."""
    design(rep)
    b = v.build("core", "vh-core", name="core-norandom", args=["--no-default-features", "--features", "debug,ssr,hydration"])
    d = v.work("C21")
    r = random.Random(v.seed() * 7919 + 21)
    hs = [history(r, {"global": 0.4, "broken": 0}, r.choice([6, 15, 30]), r.choice([1, 1, 3]), free_texts(r, 2)) for _ in range(v.pick(120, 1200))]
    obs = v.run_each(b, "reg", hs, d)
    traces = []
    for h, o in zip(hs, obs):
        if isinstance(o, dict):
            rep.violation("a history killed the process", {"history": h})
        else:
            traces.append(o)
    judge_traces(rep, "counter-histories", traces, d, counter=True, in_order=True)
    bulk(rep, b, d, r, counter=True, in_order=True)
    # one process: all histories are one history
    long = []
    for k, t in enumerate(traces[:v.pick(20, 60)]):
        for e in t:
            e = dict(e, th=e["th"] + 1000 * k)
            for f in ("m", "m2", "h", "from", "w", "d"):
                if e.get(f):
                    e[f] = "%s_%d" % (e[f], k)
            long.append(e)
    judge_traces(rep, "one-process", [long], d, counter=True)
    rounds = []
    for _ in range(v.pick(3, 15)):
        hh = []
        for th in range(8):
            h = Hist(r, {"default": 0.7, "mgrdefault": 1}, 1)
            for _ in range(20):
                h.step()
            hh.append(drop_failed(h.probes().ev))
        rounds.append(v.run_bin(b, "regthreads", hh, d))
    out = []
    for ts in rounds:
        m = []
        for k, t in enumerate(ts):
            for e in t:
                e = dict(e, th=k)
                for f in ("m", "m2", "h", "from", "w", "d"):
                    if e.get(f):
                        e[f] = "%s_%d" % (e[f], k)
                m.append(e)
        out.append(m)
    judge_traces(rep, "counter-threads", out, d, counter=True)
    tight(rep, b, d, "counter-free-running")
    rep.sample([{k: x for k, x in e.items() if k != "chars"} for e in traces[0][:5]])
    v.clean(d)


def with_trees(r, n, weights, length):
    h = Hist(r, weights, r.choice([1, 1, 2]), pool=[["a:b;"], ["c:d;"]])
    h.trees = [interpolated(r) for _ in range(r.choice([1, 2, 4]))]
    for _ in range(length):
        h.step()
    # and everything once more at the end
    for m in list(h.mgr):
        for t in h.trees:
            h.n += 1
            h.add("create", h="h%d" % h.n, m=m, g=r.random() < 0.5, prefix=UNSET, text="", chars=[], via="tree", th=h.mgr[m], ast=t, cut=h.cut)
    return h.probes().ev


def positions(x):
    """The value x in every kind of place."""
    def dd(n="a", v_="b"):
        return {"t": "a", "s": [n], "v": v_, "c": []}
    blk, rl = g.block, g.rule
    return [[blk([], [dd(x)])], [blk([], [dd(v_=x)])], [blk([], [dd(v_=x), dd("c", "d")])], [blk([x], [dd()])], [blk([".a", x], [dd()])], [blk([x, ".a"], [dd()])],
            [blk([x], [])], [rl("@media " + x, [blk([], [dd()])])], [rl("@supports " + x, [blk([".a"], [dd()])])], [blk([".a"], [rl("@media " + x, [dd()])])],
            [rl("@media print", [blk([x], [dd()])])], [blk([".a"], [rl("@media print", [dd(v_=x)])])],
            [rl("@keyframes " + x, [rl("from", [dd()])])], [rl("@keyframes k", [rl(x, [dd()])])], [rl("@keyframes k", [rl("to", [dd(v_=x)])])], [rl(x, [blk([".a"], [dd()])])],
            [blk([".a"], [dd(v_=x)]), blk([".b"], [dd()])]]


def each_position(rep, b, d, r):
    """Each of the values in each place, in scoped and global styles."""
    every = [(t, gl) for x in EVIL + ["::", ":x", "&&", ".", "> a", "a >", "0%", "from,", "1"] for t in positions(x) for gl in (False, True)]
    r.shuffle(every)
    every = every[:v.pick(1400, len(every))]
    hs = []
    for k in range(0, len(every), 20):
        h = Hist(r, {}, 1, pool=[["a:b;"]])
        h.add("mgr", m="m", prefix=r.choice([UNSET, "p"]), w="w")
        h.mgr["m"] = 0
        for t, gl in every[k:k + 20]:
            h.n += 1
            h.add("create", h="h%d" % h.n, m="m", g=gl, prefix=UNSET, text="", chars=[], via="tree", ast=t, cut=0)
        hs.append(h.ev + [{"op": "read", "w": "w", "d": "d", "th": 0}, {"op": "markup", "d": "d", "th": 0}])
    rep.note(positions_tried=len(every))
    run_histories(rep, b, d, "every-position", hs, lean=slim(r, hs, 10))


def interpolation(rep):
    """C24: values that break the stylesheet are noticed by debug builds, and leave nothing behind."""
    design(rep)
    b = parsing.core("random,ssr,hydration")
    d = v.work("C24")
    r = random.Random(v.seed() * 7919 + 24)
    for name, (script, lanes, kinds, prefixes, sheets) in INTERPOLATED.items():
        exhaustive(rep, b, d, r, script=[x.strip() for x in script.split("|")], data='TRUE' if "mgrw" in script else "FALSE",
                   handles='{"h1", "h2", "h3", "h4"}', name=name, cap=v.pick(800, 8000), kinds=kinds, lanes=lanes, prefixes=prefixes, sheets=sheets)
    each_position(rep, b, d, r)
    w = {"writer": 0.5, "broken": 0.02, "unreg": 2, "load": 0.5}
    hs = [with_trees(r, k, w, r.choice([4, 10, 20])) for k in range(v.pick(200, 2000))]
    hl = [with_trees(r, k, w, r.choice([4, 10, 20])) for k in range(v.pick(60, 500))]
    tr = run_histories(rep, b, d, "interpolated", hs, lean=hl)
    made = [e for t in tr for e in t if e.get("via") == "tree"]
    rep.note(trees_created=len(made), **{"trees_" + k: sum(e["res"] == k for e in made) for k in ("ok", "panic", "err")})
    rep.sample({k: x for k, x in made[0].items() if k != "chars"})
    v.clean(d)


INTERPOLATED = {
    "broken-first": ("mgr|create|create|create unreg|create|create", "{0}", BOTH, NOP, '{"a:b;", "!1"}'),
    "broken-recorded": ("mgrw|create|create|unreg drop create|create|read", "{0}", SCOPED, NOP, '{"a:b;", "!1", "!4"}'),
    "broken-default": ("default|default mgr|default create|unreg drop default|default", "{0, 1}", SCOPED, NOP, '{"a:b;", "!2"}'),
}

CHECKS = {
    "C24": interpolation,
    "C01": check({"unreg": 2}, [1, 1, 2], 1, dict(n=(4, 5), kinds="{FALSE, TRUE}", prefixes=('{"(unset)", ""}', '{"(unset)", "", "p"}'), cap=(4000, 30000))),
    "C02": check({"unreg": 6, "mgrdrop": 1.5}, [1], 2, dict(n=(5, 6), cap=(4000, 40000))),
    "C03": check({"maxmgr": 6, "default": 0.4, "mgrdefault": 1.5}, [1, 2, 3], 3,
                 dict(n=4, lanes="{0, 1}", prefixes=('{"(unset)", ""}', '{"(unset)", "", "p"}'), cap=(4000, 30000))),
    "C04": check(SSR, [1, 1, 2], 4, dict(n=(4, 5), data="TRUE", cap=(4000, 40000))),
    "C05": check(dict(SSR, read=2), [1], 5, dict(n=4, data="TRUE", cap=(1500, 10000))),
    "C06": check(HYD, [1, 1, 2], 6, dict(n=(5, 6), data="TRUE", cap=(2500, 30000))),
    "C21": counter,
}
