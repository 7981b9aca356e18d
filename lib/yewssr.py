"""Server-rendered components: C18 (nearest manager) and C19 (shipped style data)."""
import json
import random
import re

import vlib as v

SHAPES = ["color: %s;", "color: %s;", ".a { margin: %s; } color: red;", "&:hover { padding: %s; }", "@media print { color: %s; }", "display: block;"]
VALUES = ["red", "blue", "1px"]
SCOPED = ["css", "cssv", "impl", "hook", "uselit", "useinl", "usetext"]
PREFIXES = ["stylist", "p", "my-x", "q"]


def mgrs(r, n=4, rec=None):
    """Manager 1 is the thread's default manager."""
    out = [{"prefix": "stylist", "rec": False}]
    for k in range(1, n):
        out.append({"prefix": r.choice(PREFIXES), "rec": r.random() < 0.7 if rec is None else (k + 1) in rec})
    return out


def real(r, kind, key=None, p_delay=0.2):
    """How a node of the model is realised."""
    x = {"kind": kind, "delay": r.choice([1, 1, 2, 5]) if r.random() < p_delay else 0, "via": r.randrange(5), "text": "", "shape": 0, "v": "", "styled": False, "g": False,
         "fallback": False}
    if kind in ("scoped", "global"):
        sh, val = (r.randrange(6), r.choice(VALUES)) if key is None else key
        if kind == "global":
            real_kind = "glob"
        else:
            real_kind = r.choice(SCOPED)
            if real_kind in ("uselit", "useinl"):
                sh = sh if sh < 2 else 0
                if key is not None and key[0] >= 2:
                    real_kind, sh = "usetext", key[0]
        x.update(shape=sh, v=val, text=SHAPES[sh] % val if "%" in SHAPES[sh] else SHAPES[sh], styled=True, g=kind == "global")
        x["real"] = real_kind
    elif kind == "box":
        x["real"] = r.choice(["plain", "susp", "media", "plain"])
        x["fallback"] = r.random() < 0.5
    else:
        x["real"] = "prov"
    return x


def tree_case(r, T, ms):
    """T: [(kind, parent, mgr, key or None)] with numbers from 1; boxes are put in at random."""
    return {"mgrs": ms, "nodes": [dict(real(r, k, key), parent=p, mgr=m) for k, p, m, key in T]}


def some_keys(r, n):
    return [(r.randrange(6), r.choice(VALUES)) for _ in range(n)] if n < 4 else [(k % 5, "%dpx" % (k // 5)) for k in range(n)]


def random_tree(r, size, form="any", n_keys=None, n_mgrs=4):
    T = []
    ms = mgrs(r, n_mgrs)
    keys = some_keys(r, n_keys or r.choice([1, 2, 3]))
    for k in range(1, size + 1):
        p = 0 if k == 1 else {"any": r.choice([r.randint(1, k - 1), k - 1, max(1, k - 2)]), "chain": k - 1, "fan": 1}[form]
        kind = r.choice(["prov", "scoped", "scoped", "scoped", "global", "box"])
        T.append((kind, p, r.randint(1, len(ms)) if kind == "prov" else 0, r.choice(keys) if kind in ("scoped", "global") else None))
    return tree_case(r, T, ms)


def finish(case):
    """Document order, children, nearest managers, numbers from 0 for the harness."""
    nodes = case["nodes"]
    kids = {k: [] for k in range(len(nodes) + 1)}
    for k, x in enumerate(nodes):
        kids[x["parent"]].append(k + 1)
    order = []

    def walk(k):
        order.append(k)
        for c in kids[k]:
            walk(c)
    walk(1)
    num = {k: i for i, k in enumerate(order)}
    out = []
    for k in order:
        x = nodes[k - 1]
        near, p = 1, x["parent"]
        while p:
            if nodes[p - 1]["kind"] == "prov":
                near = nodes[p - 1]["mgr"]
                break
            p = nodes[p - 1]["parent"]
        out.append(dict(x, parent=num[x["parent"]] + 1 if x["parent"] else 0, kids=[num[c] for c in kids[k]], near=near))
    case["nodes"] = out
    return case


def for_harness(case):
    return {"mgrs": case["mgrs"], "nodes": [dict(x, kind=x["real"], mgr=x["mgr"] - 1, near=x["near"] - 1) for x in case["nodes"]]}


def for_judge(case, o):
    one = lambda q: [dict(x, n=x["n"] + 1) for x in q]
    return {"mgrs": case["mgrs"], "died": o["died"],
            "nodes": [{"kind": x["kind"], "parent": x["parent"], "mgr": x["mgr"], "near": x["near"], "chars": list(x["text"])} for x in case["nodes"]],
            "els": [{"n": x["n"] + 1, "id": x["class"].split(" ")[0]} for x in o["els"]],
            "made": one(o["made"]), "probes": one(o["probes"]), "logs": o["logs"], "payloads": one(o["payloads"]), "client": one(o["client"]), "media": one(o["media"])}


def exported(rep, r, cap):
    t = v.model_check("MCYew", env={"EXPORT": "1"})
    rep.model("MCYew", t)
    if v.thorough():
        rep.model("MCYew-deep", v.model_check("MCYew", cfg="MCYew-deep.cfg"))
    ts = []
    for ln in t.prints:
        m = re.match(r'<<"EXPORT", "(.*)">>$', ln)
        if m:
            ts.append(json.loads(m.group(1).replace('\\"', '"')))
    if not ts:
        raise v.NoAnswer("nothing was exported")
    ts.sort(key=json.dumps)
    ts = [t for t in ts if len(t) > 2]
    r.shuffle(ts)
    out = []
    for t in ts[:cap]:
        keys = [None] + r.sample([(a, b) for a in range(5) for b in VALUES if a != 1], 2)
        out.append(tree_case(r, [(x["kind"], x["parent"], x["mgr"], keys[x["key"]] if x["key"] else None) for x in t], mgrs(r, 2, {2})))
    return out


def check(rep, prop):
    d = v.work(prop)
    r = random.Random(v.seed() * 7919 + int(prop[1:]))
    cases = exported(rep, r, v.pick(600, 3400))
    for _ in range(v.pick(600, 5000)):
        cases.append(random_tree(r, r.choice([3, 5, 8, 12, 20])))
    for form in ["any", "chain", "fan"] * v.pick(3, 15):        # large trees, with many styles and managers
        cases.append(random_tree(r, r.choice([40, 70, 100]), form, r.choice([2, 17, 40]), r.choice([4, 12, 20])))
    cases = [finish(c) for c in cases]
    b = v.build("ssr", "vh-ssr")
    outs = []
    for k in range(0, len(cases), 200):
        part = cases[k:k + 200]
        for c, o in zip(part, v.run_each(b, "run", [for_harness(c) for c in part], d)):
            outs.append(o if "els" in o else {"died": True, "els": [], "made": [], "probes": [], "logs": [], "payloads": [], "client": [], "media": []})
    rows = [for_judge(c, o) for c, o in zip(cases, outs)]
    rej, t = v.judge("JudgeYew", rows, d, env={"PROP": prop})
    rep.model("JudgeYew", t)
    rep.traces("rendered trees", len(rows))
    rep.note(nodes=sum(len(c["nodes"]) for c in cases), suspended=sum(x["delay"] > 0 for c in cases for x in c["nodes"]),
             providers=sum(x["kind"] == "prov" for c in cases for x in c["nodes"]), shipped_entries=sum(len(p["data"]) for o in outs for p in o["payloads"]))
    rep.sample({"tree": [[x["real"], x["parent"], x["mgr"], x["text"]] for x in cases[-1]["nodes"]], "elements": outs[-1]["els"][:4]})
    for i, why in rej:
        rep.violation("%s in tree %s" % (why, [(x["real"], x["parent"], x["mgr"], x["text"]) for x in cases[i]["nodes"]]), {"case": cases[i], "observed": outs[i], "verdict": why})
    import apps
    if prop == "C18":
        apps.client_runs(rep, prop, d)
    else:
        apps.hydrated_runs(rep, prop, d)
    v.clean(d)


CHECKS = {"C18": lambda rep: check(rep, "C18"), "C19": lambda rep: check(rep, "C19")}
