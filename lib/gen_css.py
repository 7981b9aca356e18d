"""Seeded generators of stylesheet trees and of CSS texts."""
import itertools

NAMES = ["color", "width", "--x", "-webkit-foo", "_z", "background-color", "m1", "\u00fcber", "grid-area", "a-b_c9"]
# Non-ASCII characters of all sorts: letters, symbols, blanks that are none in CSS, joiners, marks, private use, the last plane.
ODD = ["\u00e9", "\U0001F600", "\u00a0", "\u3000", "\u200b", "\u2028", "\u0085", "\u0301", "\u00b7", "\ufeff", "\ue000", "\U0010FFFD", "\u0660", "\u2003", "\u00d7"]
VALUES = ["red", "10px", "1px solid #fff", "calc(100% - 10px)", "url(http://a.b/c.png)", "\"a;b{c}\"", "'x'", "\"es\\\"c\"",
          "rgba(0, 0, 0, .5)", "red !important", "\"a\" / \"b\"", "1/2", "${x}", "${x}/${y}", "${ab_1}px", "\u00e9\u4e2d\U0001F600",
          "'it\\'s; {ok}'", "1 / -1", "a:b", "\"/* no */\"", "a,b , c", "[full] 1fr", "\"\"", "url(\"a;b.png\")", "@x", "1px\n  2px",
          "'\"'", "\"'\"", "#a&b", "\"</style>\"", "50% 0", "${a}${b}", "-1.5em", "\"${q}\"", "a>b", "\"a\" /", "/", "a / b /", "${a} /", "/ 2", "a//b"]
SELS = [".a", "&:hover", "&", ":root", "::before", "div > p", "a + b", "[href$=\".pdf\"]", "[x=\"a,b\"]", "[x='&']", ":not(.a, .b)",
        ":is(:root, &)", "*", "& &", "#id", "a:nth-child(2n + 1)", ".a\\:b", "\u00fc-n", "& > .x", ".p &", "${sel}", ".${c}-x", "&:not(:root)",
        "[a=\":root\"]", ":hover", ":root.big", "a ~ b", "[x=\"}{;\"]", "&-suffix", "html:root", "> a", "[x=\"@b\"]", "a|b",
        ":is(a, :not(b, c))", "[d=\"(\"]", "p:root &", ".x:root:root", "[x='\"']", "&&", ".b:not([y=\"&,\"])", "\\&x",
        ".a /* & */", ".a /* don't */ &", ":is(a /* ) */, b)", ".a/* , { } ; */b", "& /*:root*/ .x", ".a /*\\*/ &", "[x='/*'] &", ".p /* \" */ :root", ":is(a/*(*/)",
        ":not(& /* ' */, b)"]
CONDS = ["screen", "(min-width: 10px)", "screen and (max-width: ${i}px)", "not all", "(a: b) and (c: \"x{y\")", "print, screen",
         "(400px <= width <= 700px)", "not (display: grid)", "selector(a > b)", "sidebar (min-width: 1px)", "(a: 'q;')", "(x: 1px;)", "(a /* ) */ : b)", "screen /* { } ; */ and (a: b)", "(a: b/*'*/)"]
ATNAMES = ["@media", "@supports", "@container"]
KFNAMES = ["spin", "\u00e9x", "a-b", "${k}"]
STEPS = ["from", "to", "50%", "0%, 100%", "from, 12.5%", "${p}%"]


def odd(r, t):
    """t with an unusual character somewhere."""
    k = r.choice([0, len(t), r.randrange(len(t) + 1)])
    while t[:k].endswith("\\"):         # (what it escapes stays escaped)
        k -= 1
    return t[:k] + r.choice(ODD) + t[k:]


def pick(r, ts, p=0.04):
    t = r.choice(ts)
    return odd(r, t) if r.random() < p and "${" not in t and "/*" not in t else t


def decl(r):
    return {"t": "a", "s": [pick(r, NAMES)], "v": pick(r, VALUES), "c": []}


def block(sels, c):
    return {"t": "b", "s": sels, "v": "", "c": c}


def rule(cond, c):
    return {"t": "r", "s": [cond], "v": "", "c": c}


def seq(r, f, lo, hi):
    return [f() for _ in range(r.randint(lo, hi))]


def sels(r):
    return [pick(r, SELS) for _ in range(r.choice([1, 1, 1, 2, 3]))]


def at_cond(r):
    return r.choice(ATNAMES) + " " + pick(r, CONDS)


def inner(r, depth):
    """Content of a block: declarations and at-rules."""
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        if depth > 0 and r.random() < 0.3:
            out.append(rule(at_cond(r), inner(r, depth - 1)))
        else:
            out.append(decl(r))
    return out


def step(r):
    return rule(r.choice(STEPS), [decl(r) for _ in range(r.choice([0, 1, 2]))])


def top(r, depth, n=None):
    """Content of a sheet or of a top-level at-rule, as the parser can produce it: a run of
    declarations is one dangling block."""
    out = []
    for _ in range(r.choice([0, 1, 2, 2, 3]) if n is None else n):
        k = r.random()
        if k < 0.25 and not (out and out[-1]["t"] == "b" and out[-1]["s"] == []):
            out.append(block([], [decl(r) for _ in range(r.randint(1, 3))]))
        elif k < 0.6:
            out.append(block(sels(r), inner(r, 2)))
        elif k < 0.85 and depth > 0:
            out.append(rule(at_cond(r), top(r, depth - 1)))
        else:
            out.append(rule("@keyframes " + r.choice(KFNAMES), [step(r) for _ in range(r.choice([0, 1, 2]))]))
    return out


def sheet(r):
    return top(r, 2)


def long_text(r, n):
    """A word of n characters."""
    return "".join(r.choice("abcxyz0189-_") for _ in range(n - 1)).join(["w", ""]) if n > 1 else "w"


SIZES = [17, 33, 65, 100, 129, 257, 300]


def nest(r, depth, c):
    for _ in range(depth):
        c = [rule(at_cond(r), c if r.random() < 0.7 else [block([], [decl(r)])] + c)]
    return c


def big(r, kind):
    """A sheet that is large in one respect."""
    n = r.choice(SIZES)
    m = min(n, 129)
    return {
        "blocks": lambda: [block(sels(r), [decl(r)]) for _ in range(m)],
        "decls": lambda: [block([".a"], [decl(r) for _ in range(m)])],
        "dangling": lambda: [block([], [decl(r) for _ in range(m)])],
        "selectors": lambda: [block([pick(r, SELS) for _ in range(m)], [decl(r)])],
        "same": lambda: [block([".a"], [dict(d) for d in [decl(r)] * min(n, 65)])] * 3,
        "deep": lambda: nest(r, r.choice([9, 17, 33, 40]), [block(["&:hover"], [decl(r)])]),
        "deep-inner": lambda: [block([".a", "&"], inner_nest(r, r.choice([9, 17, 33])))],
        "steps": lambda: [rule("@keyframes " + r.choice(KFNAMES), [step(r) for _ in range(m)])],
        "value": lambda: [block([".a"], [decl(r), {"t": "a", "s": ["color"], "v": long_text(r, n * 3), "c": []}])],
        "string": lambda: [block([".a"], [{"t": "a", "s": ["content"], "v": '"' + "".join(r.choice("a;{}:,/*& ") for _ in range(n)) + '"', "c": []}])],
        "name": lambda: [block([".a"], [{"t": "a", "s": [long_text(r, n)], "v": "1", "c": []}])],
        "selector": lambda: [block(["." + long_text(r, n) + r.choice(["", ":hover", " &", ":root"])], [decl(r)])],
        "compound": lambda: [block([" ".join(r.choice([".a", "&", "b", ":h"]) for _ in range(m))], [decl(r)])],
        "condition": lambda: [rule("@media " + " and ".join("(min-width: %dpx)" % k for k in range(min(n, 40))), [block([".a"], [decl(r)])])],
        "rules": lambda: [rule(at_cond(r), [block(sels(r), [decl(r)])]) for _ in range(min(n, 65))],
        "names": lambda: [block([".a"], [{"t": "a", "s": ["color"], "v": "".join("${v%d} " % k for k in range(min(n, 65))).strip(), "c": []}])],
    }[kind]()


LENGTHS = [64, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 10000, 16384, 32768, 65535, 65536, 65537, 131072, 200000]


def family(r, n):
    """Texts of about n characters that differ in few of them and mean different things; accepted or not."""
    fill = r.choice([lambda k: "x" * k, lambda k: long_text(r, k), lambda k: ("0123456789abcdef" * (k // 16 + 1))[:k],
                     lambda k: " " * k, lambda k: "\u00e9" * (k // 2)])(n)
    if n <= 16384 and r.random() < 0.3:
        base = "".join(".c%d { color: red; } " % k for k in range(n // 44))
        mk = lambda a, m, z: ".a%s { b: c; } " % a + base + ".m%s { b: c; } " % m + base + ".z%s { b: c; }" % z
    else:
        mk = lambda a, m, z: ".a%s { content: \"%s%s%s\"; b: %s; }" % (a, fill[:n // 2], m, fill[n // 2:], z)
    out = [mk("p", "p", "p"), mk("q", "p", "p"), mk("p", "q", "p"), mk("p", "p", "q"), mk("p", "", "p"), mk("p", "p", "pp")]
    out = [(x, "ok") for x in out + [out[0] + " .e { f: g; }", ".e { f: g; } " + out[0]]]
    return out + [(x, "err") for x in (out[0][0][:-1], out[0][0] + "}", "}" + out[0][0], out[0][0][:-1] + ";;}")]


def inner_nest(r, depth):
    c = [decl(r)]
    for _ in range(depth):
        c = [rule(at_cond(r), c)] + ([decl(r)] if r.random() < 0.3 else [])
    return c


BIG = ["blocks", "decls", "dangling", "selectors", "same", "deep", "deep-inner", "steps", "value", "string", "name", "selector", "compound",
       "condition", "rules", "names"]

GAPS = ["", "", "", " ", "\n", "\t", "  \r\n ", "/* c */", " /**/ ", "/* ; { } \" ' */", "/* a **/", "\n    ", "\f", "\f/* c */", "/*\n*/ /* & */", "\r", "/***/", "/** x\n * y\n **/",
        "/*/*/", "/* * / */", "/*\u00e9*/"]
PLAIN = ["", "", " ", "\n", "\t", "  \r\n ", "\r", "\f"]


class Layout:
    """Write a tree with random white space and comments wherever they may stand."""

    def __init__(self, r, level):
        self.r, self.level = r, level

    def gap(self):
        if self.level == 0:
            return ""
        return self.r.choice(GAPS if self.level == 2 else PLAIN)

    def after(self):        # after selectors, conditions and values: blanks only
        if self.level == 0:
            return ""
        return self.r.choice(PLAIN)

    def decl(self, n):
        return self.gap() + n["s"][0] + self.gap() + ":" + self.gap() + n["v"] + self.after()

    def decls(self, ns, need_last):
        out = ""
        for k, n in enumerate(ns):
            out += self.decl(n)
            last = k == len(ns) - 1
            if not last or need_last or self.r.random() < 0.6:
                out += ";"
        return out

    def inner(self, c):
        out, k = "", 0
        while k < len(c):
            if c[k]["t"] == "a":
                j = k
                while j < len(c) and c[j]["t"] == "a":
                    j += 1
                out += self.decls(c[k:j], j < len(c))
                k = j
            else:
                out += self.rule(c[k], self.inner)
                k += 1
        # A comment right after a string or an interpolation is kept as part of the value.
        return out + (self.after() if c and c[-1]["t"] == "a" and not out.endswith(";") else self.gap())

    def cond(self, text):
        return text + self.after()

    def rule(self, n, body):
        name, _, rest = n["s"][0].partition(" ")
        if not name.startswith("@"):
            head = n["s"][0]
        else:
            ends = [" ", " ", "\n", "\t", "\r\n", "\f"] + ([""] if rest.startswith("(") else [])
            head = name + (self.r.choice(ends) if self.level else " ") + self.r.choice(["", "", " ", "\n"] if self.level else [""]) + rest
        return self.gap() + head + self.after() + "{" + body(n["c"]) + "}" + self.gap()

    def block(self, n):
        if not n["s"]:
            return self.decls(n["c"], True)
        out = ""
        for k, s in enumerate(n["s"]):
            out += (self.gap() if k == 0 else "," + self.gap()) + s + self.after()
        return out + "{" + self.inner(n["c"]) + "}" + self.gap()

    def steps(self, c):
        return "".join(self.rule(n, self.inner) for n in c) + self.gap()

    def top(self, c):
        out = ""
        for n in c:
            if n["t"] == "b":
                out += self.block(n)
            elif n["s"][0].startswith("@keyframes"):
                out += self.rule(n, self.steps)
            else:
                out += self.rule(n, self.top)
        return out + self.gap()


def text(r, ast, level=None):
    return Layout(r, r.choice([0, 1, 1, 2, 2]) if level is None else level).top(ast)


ALPHA = list("ab:;{}@\"'/*$,&()[]\\ \n-_.#0<>!%") + ["@media ", "@keyframes ", "${", "/*", "*/", "\u00e9", "\U0001F600", "@supports ", "::", "\\\"", "\u00a0", "\u2028", "\x0b", "\x0c", "\0", "\x7f"]


def mutate(r, t):
    for _ in range(r.choice([1, 1, 2, 3])):
        if not t:
            return r.choice(ALPHA)
        k = r.randrange(len(t))
        m = r.random()
        if m < 0.35:
            t = t[:k] + t[k + 1:]
        elif m < 0.7:
            t = t[:k] + r.choice(ALPHA) + t[k:]
        elif m < 0.8:
            t = t[:k] + r.choice(ALPHA) + t[k + 1:]
        elif m < 0.9:
            j = min(len(t), k + r.randint(1, 8))
            t = t[:j] + t[k:j] + t[j:]
        else:
            j = min(len(t), k + r.randint(1, 12))
            t = t[:k] + t[j:]
    return t


def soup(r):
    return "".join(r.choice(ALPHA) for _ in range(r.randint(1, 14)))


def tokens_upto(alphabet, n):
    for k in range(n + 1):
        for c in itertools.product(alphabet, repeat=k):
            yield "".join(c)
