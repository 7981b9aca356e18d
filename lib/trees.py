"""Checks of the tree, its rendering and its value semantics: C07, C08, C13."""
import copy
import json
import os
import random

import gen_css as g
import parsing
import vlib as v


CUTS = [0, 0, 1, 2, 3, 10, 20, 30, 31, 12]      # how strings are cut in fragments (see harness/core/src/ast.rs)


def export(d, big):
    out = os.path.join(d, "trees.ndjson")
    r = v.tlc("ExportTrees", "ExportTrees-%d.cfg" % big, env={"OUT": out}, workers=1)
    if not os.path.exists(out):
        v.log(r.out[-2000:])
        raise v.NoAnswer("exporting the enumerated trees failed")
    return [json.loads(ln)["ast"] for ln in open(out)]


def judge_render(rep, binary, d, name, cases):
    idx, obs = v.twice(binary, "render", cases, d)
    cases = [cases[i] for i in idx]
    js = []
    for c, o in zip(cases, obs):
        js.append({"ast": c["ast"], "class": c["class"], "res": o["res"], "css": o.get("css", ""), "same": o.get("same", True),
                   "simple": c["simple"]})
    rej, r = v.judge("JudgeRender", js, d, tag="-" + name)
    rep.model("JudgeRender/" + name, r)
    rep.traces(name, len(js))
    for i, why in rej:
        rep.violation("%s: rendering %s under %r gives %r: %s" % (name, json.dumps(cases[i]["ast"]), cases[i]["class"], js[i]["css"], why),
                      {"ast": cases[i]["ast"], "class": cases[i]["class"], "observed": js[i]["css"], "verdict": why})


def case(r, ast, cls, simple):
    return {"ast": ast, "class": cls, "borrow": r.getrandbits(60), "cut": r.choice(CUTS), "simple": simple}


CLASSES = ["K", "stylist-Ab3", "my-prefix-x1", "\u00fc-1"]


def many_decls(r, n):
    return [dict(g.decl(r), v=str(i)) for i in range(n)]


def nested(r, depth):
    """Content of a block as the tree allows it: also blocks, with selectors of their own or without."""
    out = []
    for n in g.inner(r, depth):
        if n["t"] == "r" and r.random() < 0.4:
            n["c"] = nested(r, depth - 1)
        out.append(n)
        if depth > 0 and r.random() < 0.25:
            out.append(g.block([] if r.random() < 0.6 else g.sels(r), nested(r, depth - 1)))
    return out


def random_tree(r, depth, simple):
    """Top-level content as macros can build it too: dangling blocks anywhere, empty ones included."""
    out = []
    for _ in range(r.choice([0, 1, 2, 3, 4])):
        k = r.random()
        if k < 0.25:
            out.append(g.block([], [g.decl(r) for _ in range(r.choice([0, 1, 2]))] if r.random() < .7 else nested(r, 2)))
        elif k < 0.6:
            out.append(g.block(g.sels(r), nested(r, 3)))
        elif k < 0.87 and depth > 0:
            out.append(g.rule(g.at_cond(r), random_tree(r, depth - 1, simple)))
        else:
            out.append(g.rule("@keyframes " + r.choice(g.KFNAMES), [g.step(r) for _ in range(r.choice([0, 1, 2]))]))
    return out


def plain(q):
    """Is the CSS of this tree readable line by line?"""
    return all("\n" not in n["v"] and all("\n" not in s and not s.startswith(" ") for s in n["s"]) and plain(n["c"])
               and not (n["t"] == "a" and n["v"].endswith(" {")) for n in q)


def c08(rep):
    big = v.pick(0, 2)
    m = v.model_check("MCCss", "MCCss-%d.cfg" % big)
    rep.model("MCCss", m)
    b = parsing.core()
    d = v.work("C08")
    r = random.Random(v.seed() * 7919 + 8)
    trees = export(d, v.pick(1, 2))
    rep.note(enumerated_trees=len(trees))
    cases = [case(r, t, c, True) for t in trees for c in (["K", ""] if v.thorough() else [r.choice(["K", ""])])]
    judge_render(rep, b, d, "enumerated", cases)
    rnd = []
    for _ in range(v.pick(1500, 10000)):
        t = random_tree(r, 3, True)
        rnd.append(case(r, t, r.choice(CLASSES + [""]), plain(t)))
    judge_render(rep, b, d, "random", rnd)
    big = [g.big(r, k) for k in g.BIG for _ in range(v.pick(2, 12))]
    judge_render(rep, b, d, "large", [case(r, t, r.choice(CLASSES + [""]), plain(t)) for t in big])
    rep.sample({"ast": rnd[0]["ast"], "class": rnd[0]["class"]})
    v.clean(d)


PIECES = ["&", ":root", ":h", "::b", ".s", " ", ">", "*", "\"&\"", "':root'", "\"\\\"&\"", "[x=", "]", "\\&", "r", ":not(", ")", ",", ":roo", "t"]


def c07(rep):
    m = v.model_check("MCCss", "MCCss-%d.cfg" % v.pick(0, 1))
    rep.model("MCCss", m)
    b = parsing.core()
    d = v.work("C07")
    r = random.Random(v.seed() * 7919 + 7)
    cases = []
    # every selector assembled from at most n pieces, alone
    sels = parsing.uniq(s for s in g.tokens_upto(PIECES, v.pick(3, 4)) if s.strip() == s and s)
    d1 = [{"t": "a", "s": ["x"], "v": "1", "c": []}]
    for k, s in enumerate(sels):
        for cls in (["K", ""] if v.thorough() else [("K", "", "my-1")[k % 3]]):
            cases.append(case(r, [g.block([s], d1)], cls, True))
    rep.note(enumerated_selectors=len(sels))
    # selectors in lists, nested under at-rules, in keyframes
    for _ in range(v.pick(1500, 10000)):
        ss = [r.choice(sels) if r.random() < 0.5 else r.choice(g.SELS) for _ in range(r.randint(1, 4))]
        n = g.block(ss, copy.deepcopy(d1) if r.random() < .5 else g.inner(r, 2))
        for _ in range(r.choice([0, 0, 1, 2])):
            sib = g.block([], copy.deepcopy(d1))
            n = g.rule(g.at_cond(r), r.choice([[n], [sib, n], [n, sib]]))
        t = [n]
        if r.random() < .3:
            t.append(g.rule("@keyframes " + r.choice(["k", "&", ":root"]), [g.rule(r.choice(["from", "&", ":root, &", "0%"]), copy.deepcopy(d1))]))
        if r.random() < .3:
            t.insert(0, g.block([], copy.deepcopy(d1)))
        cases.append(case(r, t, r.choice(CLASSES + ["", ""]), plain(t)))
    judge_render(rep, b, d, "selectors", cases)
    big = [g.big(r, k) for k in ["selectors", "selector", "compound", "deep", "deep-inner", "blocks"] for _ in range(v.pick(4, 24))]
    judge_render(rep, b, d, "large", [case(r, t, r.choice(CLASSES + [""]), plain(t)) for t in big])
    rep.sample({"ast": cases[-1]["ast"], "class": cases[-1]["class"]})
    # and from text, through the parser and a real style
    texts = []
    for _ in range(v.pick(400, 3000)):
        a = [g.block(g.sels(r), [g.decl(r)]) for _ in range(r.randint(1, 2))]
        texts.append(g.text(r, a, 1))
    texts = [t for t in parsing.uniq(texts) if "${" not in t]
    idx, obs = v.twice(b, "closure", texts, d, same=parsing.nameless)
    texts = [texts[i] for i in idx]
    js = [dict(o, chars=list(t)) for t, o in zip(texts, obs) if "parse" in o]
    rej, j = v.judge("JudgeClosure", js, d)
    rep.model("JudgeClosure", j)
    rep.traces("styles", len(js))
    if len(js) != len(texts):
        rep.violation("creating a style killed the process", {"texts": [t for t, o in zip(texts, obs) if "parse" not in o]})
    for k, why in rej:
        rep.violation("style of %r: %s" % ("".join(js[k]["chars"]), why), js[k])
    v.clean(d)


def variants(r, t):
    """Trees differing from t in one place, or not at all."""
    out = []
    for _ in range(6):
        u = copy.deepcopy(t)
        nodes = []

        def walk(q):
            for n in q:
                nodes.append((q, n))
                walk(n["c"])
        walk(u)
        if not nodes:
            out.append([g.block([], [g.decl(r)])])
            continue
        q, n = r.choice(nodes)
        k = r.randrange(8)
        if k == 0:
            n["v"] = n["v"] + "x" if n["t"] == "a" else n["v"]
        elif k == 1 and n["s"]:
            n["s"][-1] += "y"
        elif k == 2:
            q.remove(n)
        elif k == 3 and len(q) > 1:
            q.reverse()
        elif k == 4 and n["t"] == "b" and n["s"]:
            n["s"] = n["s"] + [n["s"][0]]
        elif k == 5 and n["t"] == "a":
            n["s"], n["v"] = [n["v"]], n["s"][0]
        elif k == 6 and n["t"] == "b" and len(n["s"]) > 1:
            n["s"].reverse()
        elif k == 7:
            q.append(copy.deepcopy(n))
        out.append(u)
    return out


BIG = [k for k in g.BIG if not k.startswith("deep")]      # serde_json has a limit of its own for how deep values nest


def c13(rep):
    b = parsing.core()
    d = v.work("C13")
    r = random.Random(v.seed() * 7919 + 13)
    pairs = []
    for k in [None] * v.pick(300, 2500) + BIG * v.pick(1, 5):
        t = g.big(r, k) if k else random_tree(r, 2, False)
        cut = r.choice(CUTS)

        def side(x, cut):
            return {"ast": x, "borrow": r.choice([0, (1 << 61) - 1, r.getrandbits(60)]), "cut": cut}
        pairs.append((side(t, cut), side(copy.deepcopy(t), cut), True))
        pairs.append((side(t, 0), side(copy.deepcopy(t), 1), False))
        for u in variants(r, t):
            pairs.append((side(t, cut), side(u, cut), True))
    idx, obs = v.twice(b, "value", [{"a": a, "b": c} for a, c, _ in pairs], d)
    pairs = [pairs[i] for i in idx]
    cases = [{"a": a["ast"], "b": c["ast"], "cut": k, "o": o} for (a, c, k), o in zip(pairs, obs)]
    rej, j = v.judge("JudgeValue", cases, d)
    rep.model("JudgeValue", j)
    rep.traces("pairs", len(cases))
    rep.note(equal_pairs=sum(c["a"] == c["b"] for c in cases))
    rep.sample(cases[2])
    for k, why in rej:
        rep.violation("%s: %s" % (why, json.dumps(cases[k])), cases[k])
    v.clean(d)


CHECKS = {"C07": c07, "C08": c08, "C13": c13}
