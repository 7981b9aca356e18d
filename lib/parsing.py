"""Checks of the run-time grammar: C10 fidelity, C11 rejection, C12 purity, C09 closure."""
import concurrent.futures
import json
import os
import random
import re

import gen_css as g
import vlib as v

CORE = ("core", "vh-core")


def core(lean="random"):
    """The executor, with debug checks and - as `lean` - without."""
    b = v.build(*CORE)
    return v.with_lean(b, *CORE, features=lean) if lean else b


def nameless(o):
    """An observed style without the part of its name that is random."""
    o = json.dumps(o)
    for x in re.findall(r'"id": "([^"]+)"', o):
        o = o.replace(x, re.sub(r"[^-]+$", "*", x))
    return o


def chars(t):
    return list(t)


def parse_case(t, o, want="?", wast=None):
    return {"chars": chars(t), "res": o["res"], "ast": o.get("ast", []), "want": want, "wast": wast or []}


def judge_parse(rep, name, texts, obs, d, wants=None):
    cases = [parse_case(t, o, *(wants[i] if wants else ())) for i, (t, o) in enumerate(zip(texts, obs))]
    rej, r = v.judge("JudgeParse", cases, d, tag="-" + name)
    rep.model("JudgeParse/" + name, r)
    rep.traces(name, len(cases))
    for i, why in rej:
        c = cases[i]
        rep.violation("%s: %r -> %s %s: %s" % (name, texts[i], c["res"], json.dumps(c["ast"]), why),
                      {"text": texts[i], "observed": {"res": c["res"], "ast": c["ast"]}, "verdict": why})
    return rej


def uniq(xs):
    seen, out = set(), []
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def layouts(r, n):
    """(text, tree) pairs; trees that mean the same written differently."""
    out = []
    seen = set()
    while len(out) < n:
        a = g.sheet(r)
        for level in (0, 1, 2):
            t = g.text(r, a, level)
            if t not in seen and len(t) < 700:
                seen.add(t)
                out.append((t, a))
    return out[:n]


TOKENS = ["a", ":", ";", "{", "}", "@media ", " ", "\"", ",", "&", "/*", "*/", "${b}", "(", ")"]
TOKENS2 = ["a:b", ";", ".c{", "}", "@media d{", "@keyframes e{", "f", "{", " ", ",", ":"]


def run_texts(rep, binary, d, name, texts, wants=None):
    idx, obs = v.twice(binary, "parse", texts, d)
    return obs[:len(texts)], judge_parse(rep, name, [texts[i] for i in idx], obs, d, [wants[i] for i in idx] if wants else None)


def c10(rep):
    b = core()
    d = v.work("C10")
    r = random.Random(v.seed())
    pairs = layouts(r, v.pick(2500, 12000))
    texts = [p[0] for p in pairs]
    obs, _ = run_texts(rep, b, d, "layouts", texts, [("ok", p[1]) for p in pairs])
    for p in pairs[:3]:
        rep.sample({"text": p[0], "tree": p[1]})
    # sheets that are large in one respect
    big = [g.big(r, k) for k in g.BIG for _ in range(v.pick(1, 8))]
    pairs = [(g.text(r, a, r.choice([0, 1, 2])), a) for a in big]
    pairs = [p for p in pairs if len(p[0]) < 5000]
    run_texts(rep, b, d, "large", [p[0] for p in pairs], [("ok", p[1]) for p in pairs])
    # every token string up to a bound
    n1, n2 = v.pick((3, 4), (4, 5))
    toks = uniq(list(g.tokens_upto(TOKENS, n1)) + list(g.tokens_upto(TOKENS2, n2)))
    run_texts(rep, b, d, "all-token-strings", toks)
    rep.note(exhaustive_token_strings={"alphabet": TOKENS, "upto": n1, "alphabet2": TOKENS2, "upto2": n2, "count": len(toks)},
             accepted=sum(o["res"] == "ok" for o in obs))
    v.clean(d)




# Texts that are malformed by construction; @ is a place for a well-formed fragment.
MALFORMED = [
    "{S}{{", "{S}}}", "{S}.a {{ {D}", ".a {{ {D} {S0}", "{S}@media {C} {{ {S}", "{S}@keyframes k {{ from {{ {D} }}", "{S}/* {T}", "{S}.a {{ {D} /* }}",
    "{S}color: \"{Q};", "{S}.a {{ color: '{Q} }}", "{S}.a {{ color; }}", "{S}.a {{ : red; }}", "{S}.a {{ color: ; }}", "{S}color: ;", "{S}: red;",
    "{S}color red;", "{S}.a {{ {D} }} }}", "{S}{{ {D} }}", "{S};", "{D};; {S}", "{S}.a {{ ; {D} }}", "{S}.a {{ {D};; }}", "{S}@font-face {{ {D} }}",
    "{S}@import \"x\";", "{S}@media {{ {D} }}", "{S}@media {C};", "{S}@media {C} {{ }} }}", "{S}.a {{ .b {{ {D} }} }}", "{S}.a {{ &:hover {{ {D} }} }}",
    "{S}, .a {{ {D} }}", "{S}.a, {{", "{S}.a", "{S}color: red", "{S}1x: red;", "{S}.a {{ 1x: red; }}", "{S}.a {{ color: ${{ ; }}", "{S}.a {{ color: ${{1}}; }}",
    "{S}.a {{ color: $; }}", "{S}.a ) {{ {D} }}", "{S}:not(.a {{ {D} }}", "{S}.a {{ {D} @media {C} {{ {D} }}", "{S}.a \" {{ {D} }}",
    "{S}@supports ({C} {{ {D} }}", "{S}@media \"x {{ {D} }}", "{S}@keyframes k {{ {D} }}", "{S}@keyframes k {{ from {{ {D} }} }} }}",
    "{S}@keyframes {{ from {{ {D} }} }}", "{S}@keyframes k {{ @media {C} {{ }} }}", "{S}.a {{ @keyframes k {{ }} }}", "{S}*/", "{S}.a }} .b {{ {D} }}",
    "{S}@media {C} }} {{ {D} }}", "{S}.a /* {{ {D} }}", "{S}.a ; .b {{ {D} }}", "{S}.a {{ color: {{}}; }}", "{S}${{x {{ {D} }}", "{S}@{{ {D} }}", "{S}<b>",
    "{S}.a {{ color: a /* b; }}", "{S}.a {{ {D} }} /*", "{S}@media {C}", "{S}.a {{ {D} }}}}{{", "{S}\u00e9", "{S}.a {{ \u00e9 }}",
]


def malformed(r):
    def sheet():
        return g.text(r, g.top(r, 1, r.choice([0, 1, 2])), r.choice([0, 1, 2]))

    def d():
        return g.text(r, [g.block([], [g.decl(r) for _ in range(r.choice([1, 2]))])], 1)
    t = r.choice(MALFORMED)
    return t.format(S=sheet(), S0=sheet() or "b:c;", D=d(), C=r.choice(g.CONDS[:2] + g.CONDS[3:5]), T=r.choice(["", "x", "a{b:c}", "*"]),
                    Q=r.choice(["", "x", "a\\\\", "}"]))


def c11(rep):
    b = core()
    d = v.work("C11")
    r = random.Random(v.seed() * 7919 + 11)
    bad = uniq(malformed(r) for _ in range(v.pick(1500, 6000)))
    run_texts(rep, b, d, "malformed", bad, [("err", [])] * len(bad))
    rep.sample({"malformed": bad[0]})
    base = [t for t, _ in layouts(r, v.pick(60, 250)) if 20 < len(t) < 260]
    # every truncation of well-formed sheets
    cut = uniq(t[:k] for t in base[:v.pick(20, 80)] for k in range(len(t)))
    obs, _ = run_texts(rep, b, d, "truncations", cut)
    mut = uniq(g.mutate(r, r.choice(base)) for _ in range(v.pick(3500, 20000)))
    mut += uniq(g.soup(r) for _ in range(v.pick(1500, 8000)))
    obs2, _ = run_texts(rep, b, d, "mutations", mut)
    toks = uniq(g.tokens_upto(TOKENS, v.pick(3, 4)))
    run_texts(rep, b, d, "all-token-strings", toks)
    # size: nesting, long tokens, long lists; the outcome is judged like any other
    deep = []
    for n in (8, 33, 80):
        deep += ["@media a{" * n + "}" * k for k in (n, n - 1, n + 1)]
        deep += ["a" + "(" * n + ")" * k + "{b:c}" for k in (n, n - 1)]
        deep += ["a:b;" * n, "a, " * n + "b{c:d}", "x" * n + ":" + "y" * n + ";", "/*" * n + "*/", "${a}" * n + "{}", "\"" * n, "a:\"" + "\\\"" * n]
    run_texts(rep, b, d, "large", deep)
    rep.note(malformed=len(bad), truncations=len(cut), mutations=len(mut),
             mutations_accepted=sum(o["res"] == "ok" for o in obs2), truncations_rejected=sum(o["res"] == "err" for o in obs))
    long_texts(rep, b, d, r, [1000, 65500, 65536, 70000])
    # a failed parse leaves no trace: good and bad texts of the same neighbourhood, interleaved and repeated
    history(rep, b, d, r, base[:20], 1)
    v.clean(d)


def near(r, t):
    """Texts that a sloppy cache key would confuse with t."""
    out = [t, t + " ", " " + t, t + "}", t.upper(), t[:-1], t[::-1], t + t, t.lower(), t.swapcase(), t.title(), t + "\0", t + "/**/", t.replace(" ", ""),
           re.sub(r"\s+", " ", t), re.sub(r" ", "  ", t), re.sub(r" ", "\t", t), t.replace(";", ";;", 1), t.replace("'", '"'),
           t.replace("red", "Red"), re.sub(r"\d", "0", t)]
    # the same inside strings, where every character counts
    q = r.choice(["a b", "A b", "a  b", "a\tb", " a b", "a b ", "ab", "a/**/b", "a /**/ b", "a\\ b", "\u00e9", "e\u0301"])
    out += ['%s content: "%s";' % (x, q) for x in (t[:40] if t.startswith("color") else "",)]
    spaces = [i for i, c in enumerate(t) if c in " \t\n"]
    for k in r.sample(spaces, min(3, len(spaces))):
        out += [t[:k] + " " + t[k:], t[:k] + "\n" + t[k:], t[:k] + t[k + 1:]]
    if len(t) > 3:
        k = r.randrange(len(t) - 1)
        out.append(t[:k] + t[k + 1] + t[k] + t[k + 2:])
        out.append(t[:k] + "z" + t[k + 1:])
        out.append(t[1:])
    return out


def history(rep, b, d, r, base, threads):
    history_in(rep, b, d, r, base, threads)
    if b.lean and threads > 1:
        history_in(rep, b.lean, d, r, base, threads)


def history_in(rep, b, d, r, base, threads):
    pool = uniq(x for t in base for x in near(r, t))
    pool += ["a%d: b;" % i for i in range(v.pick(300, 3000))] + ["a%d: b" % i for i in range(100)]
    long = "x" * 300
    pool += [".%s%d { a: b; }" % (long, i) for i in range(10)] + [".%d%s { a: b" % (i, long) for i in range(3)]
    seqs = []
    for _ in range(threads):
        s = []
        for _ in range(3):
            q = list(pool)
            r.shuffle(q)
            s += q
        seqs.append(s)
    try:
        out = v.run_bin(b, "threads", seqs, d)
    except v.Died as e:
        rep.violation("concurrent parsing did not survive: %s" % e, {"sequences": seqs})
        return
    calls = 0
    triples = {}
    for s, o in zip(seqs, out):
        if not isinstance(o, list) or len(o) != len(s):
            rep.violation("a parsing thread died", {"sequence": s[:50]})
            continue
        calls += len(s)
        for pos, (t, x) in enumerate(zip(s, o)):
            triples.setdefault((t, json.dumps(x)), (t, x, pos))
    # one verdict per distinct (text, outcome); a text with two outcomes has at least one wrong
    items = list(triples.values())
    judge_parse(rep, "histories", [i[0] for i in items], [i[1] for i in items], d)
    rep.note(parse_calls_in_histories=calls, distinct_outcomes=len(items), threads=threads)


def long_texts(rep, b, d, r, lengths):
    """Histories of long texts that resemble each other, against each text in a process of its own."""
    texts = uniq(t for n in lengths for _ in range(v.pick(1, 3)) for t in g.family(r, n))
    wants = [w for _, w in texts]
    texts = [t for t, _ in texts]
    for bb in [b] + ([b.lean] if b.lean else []):
        seqs = []
        for _ in range(5):
            q = list(texts)
            r.shuffle(q)
            seqs.append(q)
        try:
            out = v.run_bin(bb, "threads", seqs[:1], d) + v.run_bin(bb, "threads", seqs[1:], d)
        except v.Died as e:
            rep.violation("parsing long texts did not survive: %s" % e, {"texts": [t[:50] for t in texts]})
            return
        seen = {t: {} for t in texts}
        for s, o in zip(seqs, out):
            if not isinstance(o, list) or len(o) != len(s):
                rep.violation("a thread parsing long texts died", {"sequence": [t[:50] for t in s]})
                continue
            for t, x in zip(s, o):
                seen[t].setdefault(json.dumps(x), x)

        def alone(k):
            return v.run_bin(bb, "threads", [[texts[k]]], d, tag="-alone%d" % k)[0][0]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            refs = list(ex.map(alone, range(len(texts))))
        cases = [{"want": w, "alone": a, "seen": list(seen[t].values())} for t, w, a in zip(texts, wants, refs)]
        rej, j = v.judge("JudgePure", cases, d, tag="-" + os.path.basename(os.path.dirname(bb)))
        rep.model("JudgePure", j)
        rep.traces("long texts", len(cases))
        for k, why in rej:
            t = texts[k]
            rep.violation("%r... (%d characters): %s" % (t[:60], len(t), why), {"text": t, "verdict": why})
    rep.note(long_texts=len(texts), longest=max(map(len, texts)))


def c12(rep):
    m = v.model_check("ParseCache", v.pick("ParseCache.cfg", "ParseCache-deep.cfg"))
    rep.model("ParseCache", m)
    b = core()
    d = v.work("C12")
    r = random.Random(v.seed() * 7919 + 12)
    for k in range(v.pick(2, 8)):
        base = [t for t, _ in layouts(r, 60)]
        history(rep, b, d, r, base, (1, 8)[k % 2])
    long_texts(rep, b, d, r, g.LENGTHS)
    rep.sample({"base": base[0], "near": near(r, base[0])[:6]})
    v.clean(d)


# (before, repeated, after): texts that grow in one respect; most of them are much shorter than their CSS.
GROWING = [("", "a{b:c;}", ""), ("d:e;", "a,b{c:d}", "@media print{f{g:h}}"), ("a{", "b:c;", "}"), ("", "@media x{a{b:c}}", ""),
           ("@keyframes k{", "to{a:b}", "}"), ("a{b:\"", "x", "\";}"), ("a,", "b,", "c{d:e;}"), ("a{b:", "/", ";}"), ("a{b:c}", "/**/ ", "")]


def growing(rep, b, d, top):
    """Texts of 2^9, 2^10, ... top characters: any limit lies between one of them and its CSS, or between two of them."""
    asks = [{"pre": p, "unit": u, "post": z, "n": n} for p, u, z in GROWING
            for n in [1, 2] + [2 ** k // len(u) + 1 for k in range(9, top + 1)]]
    for bb in [b] + ([b.lean] if b.lean else []):
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            out = [o[0] for o in ex.map(lambda k: v.run_bin(bb, "long", [asks[k]], d, tag="-%d" % k), range(len(asks)))]
        cases, first = [], {}
        for a, o in zip(asks, out):
            k = (a["pre"], a["unit"])
            if a["n"] <= 2:
                first.setdefault(k, []).append(o)
                continue
            c = dict(o, pre=list(a["pre"]), unit=list(a["unit"]), post=list(a["post"]), n=a["n"])
            for s in ("scoped", "global"):
                one, two = [x[s]["css"].replace(x[s]["id"], o[s]["id"]) if s == "scoped" and x[s]["id"] else x[s]["css"] for x in first[k]]
                more = len(two) - len(one)
                p = len(os.path.commonprefix([one, two]))
                c[s] = dict(o[s], a=one[:max(p - more, 0)], u=two[p:p + more], z=one[p:]) if more else dict(o[s], a=one, u="", z="")
            cases.append(c)
        rej, j = v.judge("JudgeLong", cases, d, tag="-" + os.path.basename(os.path.dirname(bb)))
        rep.model("JudgeLong", j)
        rep.traces("growing texts", len(cases))
        for k, why in rej:
            c = cases[k]
            t = "".join(c["pre"]) + "..." + "".join(c["unit"]) + "..." + "".join(c["post"])
            rep.violation("%r with %d repetitions: %s" % (t, c["n"], why), {"pre": c["pre"], "unit": c["unit"], "post": c["post"], "n": c["n"], "verdict": why})


def c09(rep):
    m = v.model_check("MCCss", "MCCss-%d.cfg" % v.pick(0, 2))
    rep.model("MCCss", m)
    b = core()
    d = v.work("C09")
    growing(rep, b, d, v.pick(17, 20))
    r = random.Random(v.seed() * 7919 + 9)
    texts = [t for t, _ in layouts(r, v.pick(1200, 8000))]
    texts += uniq(g.mutate(r, r.choice(texts)) for _ in range(v.pick(1200, 8000)))
    texts += uniq(g.tokens_upto(TOKENS2, v.pick(3, 4)))
    texts += [t for t in (g.text(r, g.big(r, k), 1) for k in g.BIG * v.pick(1, 5)) if len(t) < 3000]
    texts = [t for t in uniq(re.sub(r"\$\{\w+\}", "v1", t) for t in texts) if "${" not in t]
    at, obs = v.twice(b, "closure", texts, d, same=nameless)
    texts = [texts[i] for i in at]
    cases, idx = [], []
    for i, (t, o) in enumerate(zip(texts, obs)):
        if "parse" not in o:
            rep.violation("creating a style from %r killed the process" % t, {"text": t, "observed": o})
            continue
        idx.append(i)
        cases.append(dict(o, chars=list(t)))
    rej, j = v.judge("JudgeClosure", cases, d)
    rep.model("JudgeClosure", j)
    rep.traces("closure", len(cases))
    rep.note(accepted=sum(c["parse"]["res"] == "ok" for c in cases))
    rep.sample({"text": texts[0], "observed": obs[0]})
    for k, why in rej:
        rep.violation("%r: %s" % (texts[idx[k]], why), {"text": texts[idx[k]], "observed": obs[idx[k]], "verdict": why})
    v.clean(d)


CHECKS = {"C09": c09, "C10": c10, "C11": c11, "C12": c12}
