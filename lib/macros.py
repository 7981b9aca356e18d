"""Checks of the macros: C14 literal, C15 inline, C16 misuse, C17 evaluation.

Invocations are generated as tokens (or as a literal with arguments) and written as Rust
source.  The real macros expand them; what they yield is judged by spec/JudgeMacro.tla.
"""
import json
import os
import random
import re
import shutil
import subprocess

import gen_css as g
import vlib as v

RUNS = 3

# ------------------------------------------------------------------ expressions
CONSTS = [('"str"', "str"), ('"a b"', "a b"), ('"4em"', "4em"), ('"#44444e"', "#44444e"), ("10", "10"), ("-1.5", "-1.5"), ("true", "true"), ("'c'", "c"),
          ("px", "10"), ("name", "n-m"), ("&&name", "n-m"), ('format!("{}px", 3)', "3px"), ('if px > 3 { "yes" } else { "no" }', "yes"), ('{ let a = 1; a + 1 }', "2"),
          ("name.len()", "3"), ('"${x}"', "${x}"), ('"q\\"q"', 'q"q'), ("tricky", "$${a} {b}; & /* ,"), ("u8::MAX", "255"), ('"é"', "é"),
          ("[1, 2][1]", "2"), ("Shown(7)", "<7>"), ('r"\\x"', "\\x"), ('concat!("a", "b")', "ab"), ("px % 3", "1"), ("(px, 2).1", "2")]
# evaluated anew and counted; # is the call
EVS = ["#", "#", "#", "&#", "{ # }", "#.as_str()", "std::borrow::Cow::from(#)", "(#)", 'format!("{}", #)', "Kept { s: # }", "(#, 1).0", "[#][0]", "Box::new(#)",
       "if true { # } else { String::new() }", "match # { m => m }", "(|| #)()", "<String as From<String>>::from(#)", "unsafe { # }", "same!(#)", "Some(#).unwrap()",
       "&*#", "{ let a = #; a }", "Kept { s: # }.s", "#.to_string()", "support::#", "'o: { break 'o #; }", "#.replace('!', \"\")", "(&&#).clone()", "loop { break #; }"]
# nothing to count, but the value is another one each time
LIVES = [("LIVE", "live"), ("W", "w"), ("Live::NOW", "now"), ("theme::GAP_2", "gap"), ("&LIVE", "live"), ("theme::PAIR.0", "one"), ("LIVES[1]", "y"), ("Live(\"z\")", "z"),
         ("LIVE.text()", "live"), ("{ W }", "w"), ("support::LIVE", "live"), ("self::support::theme::GAP_2", "gap"), ("live", "loc"), ("(W)", "w"), ("run", ""),
         ("theme::size()", "size"), ("now()", "now"), ("Live::new()", "new"), ("<Live as Default>::default()", "dflt"), ("theme::sized(2)", "s2"),
         ("support::theme::size()", "size"), ("clock!()", "mac"), ("support::clock!()", "mac"), ('format!("{}", W)', "w"), ('format!("{W}")', "w"), ("{ const X: Live = W; X }", "w"),
         ('{ static S: Live = Live("st"); &S }', "st"), ("const { W }", "w"), ("(|| W)()", "w"), ("theme::MAKE()", "size"), ("(theme::MAKE)()", "size"), ("LIVES[0].text()", "x"),
         ("Some(W).unwrap()", "w"), ("std::convert::identity(W)", "w"), ("theme::GAP_2.to_string()", "gap"), ('"".to_owned() + &W.to_string()', "w"), ("&*W.text()", "w"),
         ("if true { W } else { Live::NOW }", "w"), ("match 1 { 1 => W, _ => W }", "w"), ("Live { 0: W.0 }", "w"), ("theme::CELL.get()", "cell"), ("unsafe { theme::raw() }", "raw"),
         ("&&theme::GAP_2", "gap"), ("same!(W)", "w"), ("&LIVES[0]", "x"), ("run as u8", ""), ("(run, 1).0", ""), ("format_args!(\"{}\", run)", ""), ("-(-(run as i32))", "")]
PRELUDE = """#![allow(warnings)]
#[path = "support.rs"]
mod support;
use support::*;
struct Shown(i32);
impl std::fmt::Display for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{}>", self.0) }
}
"""
LOCALS = 'let run = run(); let live = Live("loc"); let px = 10; let name = String::from("n-m"); let tricky = "$${a} {b}; & /* ,"; '


class Ids:
    def __init__(self):
        self.n = 0

    def next(self):
        self.n += 1
        return self.n - 1


FOCUS = []      # the only forms to use, if any


def expr(r, ids, p_ev):
    """(source, values per run, counter id or None)"""
    f = r.choice(FOCUS) if FOCUS else None
    if f in EVS or (not f and r.random() < p_ev):
        i = ids.next()
        src = (f or r.choice(EVS)).replace("#", "ev(%d)" % i)
        return src, ["v%dr%d" % (i, n) for n in range(RUNS)], i
    if f or r.random() < p_ev * 0.4:
        src, val = f or r.choice(LIVES)
        return src, ["%s%d" % (val, n) for n in range(RUNS)], None
    src, val = r.choice(CONSTS)
    return src, [val] * RUNS, None


# ------------------------------------------------------------------ tokens
def tok(k, s="", j=False, c=None, vs=None, src=None, ev=None):
    return {"k": k, "s": s, "j": j, "c": [] if c is None else c, "vs": vs or [], "cnt": -1, "src": src, "ev": ev}


def I(s):
    return tok("id", s)


def P(s):
    return tok("p", s)


def L(s):
    return tok("lit", s)


def G(d, c):
    return tok("g", d, c=c)


def ident(s):
    """An identifier with dashes, as tokens."""
    out = [P("-") if x == "-" else I(x) for x in re.findall(r"-|[^-]+", s)]
    for x, y in zip(out, out[1:]):
        x["glue"] = x["s"] == "-" and y["s"] == "-"      # `- -` is not the beginning of a name
    return out


IDENTS = ["red", "a", "b1", "_x", "color", "border-top", "-webkit-foo", "--main", "a-b-c", "--x-y", "type", "auto", "x_1", "self", "r", "and", "not", "é", "A", "none"]
LITS = ["10px", "0", "1.5", "100", "3px", "0.25rem", "12s", "2n", "\"a\\\\b\"", "\"\\\"q\\\"\"", "\"\\u{e9}\\n\"", "\"é'x\"", "\"str\"", "\"a; {b}\"", "\"\"", "\"&:x\"", "1px", "\"images/x.png\"", "0x1f", "1_0"]
STRS = [x for x in LITS if x[0] == '"']
FUNS = ["rgb", "url", "calc", "var", "linear-gradient", "-webkit-f", "attr", "translateX", "and"]


class Gen:
    def __init__(self, r, ids, p_expr=0.15, p_ev=0.3):
        self.r, self.ids, self.p_expr, self.p_ev = r, ids, p_expr, p_ev
        self.sites = []         # (statement list, statement boundaries, inside a block?)

    def e(self):
        src, vs, i = expr(self.r, self.ids, self.p_ev)
        return tok("e", vs=vs, src=src, ev=i)

    def vpiece(self, depth=2):
        r = self.r
        x = r.random()
        if x < self.p_expr:
            if r.random() < 0.04:      # (an empty selector is another matter: it says nothing)
                return [tok("e", vs=[""] * RUNS, src=r.choice(['String::from("")', '""']), ev=None)]
            return [self.e()]
        if x < 0.45:
            return ident(r.choice(IDENTS))
        if x < 0.68:
            return [L(r.choice(LITS))]
        if x < 0.84:
            return [P(r.choice("-/%:,#"))]
        if depth > 0:
            return ident(r.choice(FUNS)) + [G("(", self.value(depth - 1, 0))]
        return [P(",")]

    def value(self, depth=2, lo=1):
        out = []
        for _ in range(self.r.randint(lo, 6)):
            out += self.vpiece(depth)
        return out

    def name(self):
        return [self.e()] if self.r.random() < self.p_expr * 0.7 else ident(self.r.choice(IDENTS))

    def decl(self):
        return self.name() + [P(":")] + self.value() + [P(";")]

    def simple(self):
        r = self.r
        x = r.random()
        if x < self.p_expr:
            return [self.e()]
        if x < 0.35:
            return [P(".")] + ident(r.choice(IDENTS))
        if x < 0.5:
            return ident(r.choice(IDENTS))
        if x < 0.6:
            return [P("#")] + ident(r.choice(IDENTS))
        if x < 0.68:
            return [P("&")]
        if x < 0.74:
            return [P("*")]
        if x < 0.84:
            op = r.choice([[], [P("=")], [P("*"), P("=")], [P("^"), P("=")], [P("$"), P("=")], [P("~"), P("=")], [P("|"), P("=")]])
            val = [] if not op else ([self.e()] if r.random() < self.p_expr else r.choice([[L(r.choice(STRS))], ident("x-y")]))
            return [G("[", ident(r.choice(IDENTS)) + op + val)]
        if x < 0.92:
            return [P(":")] + ident(r.choice(["hover", "focus", "root", "first-child"]))
        if x < 0.96:
            return [P(":"), P(":")] + ident(r.choice(["before", "after"]))
        return [P(":")] + ident(r.choice(["not", "is", "nth-child", "has"])) + [G("(", r.choice([
            lambda: self.simple(), lambda: [L("2n"), P("+"), L("1")], lambda: self.simple() + [P(",")] + self.simple(),
            lambda: [I("odd")], lambda: [P("-"), I("n"), P("+"), L("4")]])())]

    def selector(self):
        r = self.r
        out = []
        for k in range(r.choice([1, 1, 2, 2, 3])):
            if k:
                out += r.choice([[], [], [P(">")], [P("+")], [P("~")]])
            out += self.simple()
        return out

    def selectors(self):
        while True:
            out = []
            for k in range(self.r.choice([1, 1, 1, 2, 3])):
                out += ([P(",")] if k else []) + self.selector()
            if not declares(out):
                return out

    def condition(self):
        r = self.r

        def feature():
            return [G("(", ident(r.choice(["max-width", "display", "a"])) + [P(":")] + self.value(1))]
        c = []
        for k in range(r.choice([1, 1, 2, 3])):
            if k:
                c += r.choice([[I("and")], [I("or")], [P(",")], [I("and"), I("not")], []])
            c += r.choice([feature, feature, lambda: [I("screen")], lambda: [I("not"), *feature()], lambda: [self.e()], lambda: [I("only"), I("print")],
                           lambda: [G("(", [L("10px"), P("<"), P("="), I("width")])], lambda: [I("selector"), G("(", self.simple())],
                           lambda: [I("selector"), G("(", [P(":"), I("not"), G("(", self.simple())])]])()
        return c

    def at(self, depth, inblock):
        c = self.condition()
        return [P("@"), I(self.r.choice(["media", "media", "supports"]))] + c + [G("{", self.items(depth - 1, inblock))]

    def items(self, depth, inblock=False):
        r = self.r
        out = []
        bounds = [0]
        self.sites.append((out, bounds, inblock))
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x = r.random()
            if x < (0.65 if inblock else 0.4) or depth <= 0:
                out += self.decl()
            elif x < 0.8 and not inblock:
                out += self.selectors() + [G("{", self.items(depth - 1, True))]
            else:
                out += self.at(depth, inblock)
            bounds.append(len(out))
        return out

    # -------------------------------------------------------------- misuse
    def with_bad(self, bad):
        """A value with `bad` somewhere in it, possibly among the arguments of a function."""
        r = self.r
        pieces = [self.vpiece() for _ in range(r.randint(0, 3))]
        k = r.randint(0, len(pieces))
        if r.random() < 0.3:
            bad = ident(r.choice(FUNS)) + [G("(", self.value(1, 0) + bad + self.value(1, 0))]
        return sum(pieces[:k], []) + bad + sum(pieces[k:], [])

    def misuse(self, inblock):
        """(kind, tokens of a statement the inline macros do not support)"""
        r = self.r
        block = lambda inb=True: G("{", self.items(1, inb))
        kinds = ["at-rule", "value block", "value punctuation", "no semicolon", "nested"]
        if not inblock:
            kinds += ["selector punctuation", "selector literal", "selector block"]
        k = r.choice(kinds)
        if k == "at-rule":
            n = r.choice(["keyframes", "font-face", "import", "charset", "page", "layer", "container", "namespace", "property", "media-x", "-webkit-keyframes", "medias"])
            x = r.random()
            if n in ("import", "charset", "namespace") or x < 0.2:
                return k, [P("@")] + ident(n) + [L('"x"'), P(";")]
            if n == "keyframes" or x < 0.5:
                return k, [P("@")] + ident(n) + ident("a-b") + [G("{", [I("from"), block(), I("to"), block()])]
            return k, [P("@")] + ident(n) + self.condition() + [block(inblock)]
        if k == "value block":
            bad = [r.choice([lambda: block(), lambda: G("[", self.value(0)), lambda: G("(", self.value(0)), lambda: G("{", [])])()]
            k2 = r.random()
            if bad[0]["s"] == "(" and k2 < 1:
                bad = [P(r.choice(",/")), bad[0]]          # else it is a function
            return k, self.name() + [P(":")] + self.with_bad(bad) + [P(";")]
        if k == "value punctuation":
            return k, self.name() + [P(":")] + self.with_bad([P(r.choice("!@^&*+|~<>=.?"))]) + [P(";")]
        if k == "no semicolon":
            return k, self.name() + [P(":")] + self.value()
        if k == "nested":
            sel = self.selectors()
            inner = sel + [G("{", self.items(0, True))]
            if inblock:
                return k, inner
            body = self.items(1, True)
            if r.random() < 0.4:
                return k, self.selectors() + [G("{", self.decl() + [P("@"), I("media")] + self.condition() + [G("{", inner)] + body)]
            return k, self.selectors() + [G("{", body + inner)]
        sel = self.selectors()
        at = r.randint(0, len(sel))
        if k == "selector punctuation":
            bad = [P(r.choice("!@/%?<;"))]
        elif k == "selector literal":
            bad = [L(r.choice(["10px", "1", "0.5", "'c'", "1u8", "0x1f", "2n"]))]
        else:
            bad = [r.choice([lambda: G("(", self.simple()), lambda: G("(", [])])()]
            bad = [r.choice([P(","), P(">"), P("&")])] + bad
        if r.random() < 0.35 and k != "selector block":
            bad = [G("[", ident("a") + bad + (ident("b") if r.random() < 0.5 else []))]
            return k, sel + bad + [block()]
        if at == 0 and bad[0]["s"] == "@":
            at = len(sel)
        return k, sel[:at] + bad + sel[at:] + [block()]

    def misused(self):
        """A well-formed invocation with one misuse planted at some depth."""
        r = self.r
        while True:
            self.sites = []
            t = self.items(3)
            out, bounds, inb = r.choice(self.sites)
            k, bad = self.misuse(inb)
            at = len(out) if k == "no semicolon" else r.choice(bounds)
            out[at:at] = bad
            if (not t) or t[0]["k"] == "lit" or size(t) > 120:
                continue
            return k, t

    def invocation(self):
        while True:
            t = self.items(3)
            if t and t[0]["k"] != "lit" and size(t) < 120:
                return t


    def large(self, kind):
        """An invocation that is large in one respect."""
        r = self.r
        n = r.choice([17, 33, 40, 65])
        if kind == "items":
            out = []
            while len(out) < n * 2:
                out += self.invocation()
            return out
        if kind == "value":
            return self.name() + [P(":")] + sum((self.vpiece() for _ in range(n)), []) + [P(";")]
        if kind == "list":
            return self.name() + [P(":")] + sum(([P(",")] + ident(r.choice(IDENTS)) for _ in range(n)), [])[1:] + [P(";")]
        if kind == "expressions":
            return self.name() + [P(":")] + sum(([self.e()] + r.choice([[], [P(",")], ident("b")]) for _ in range(n)), []) + [P(";")]
        if kind == "declarations":
            return sum((self.decl() for _ in range(n)), [])
        if kind == "selectors":
            return sum(([P(",")] + self.simple() for _ in range(n)), [P("&")]) + [G("{", self.decl())]
        if kind == "compound":
            return [P("&")] + sum((self.simple() for _ in range(n)), []) + [G("{", self.decl())]
        if kind == "functions":
            c = self.vpiece(0)
            for _ in range(min(n, 30)):
                c = ident(r.choice(FUNS)) + [G("(", c)]
            return self.name() + [P(":")] + c + [P(";")]
        if kind == "condition":
            return [P("@"), I("media")] + sum(([I("and")] + [G("(", ident("a-b") + [P(":")] + self.value(1))] for _ in range(n)), [I("screen")]) + [G("{", self.decl())]
        c = self.decl()
        for _ in range(min(n, 20)):
            c = [P("@"), I("media")] + self.condition() + [G("{", c + (self.decl() if r.random() < 0.3 else []))]
        return c


LARGE = ["items", "value", "list", "expressions", "declarations", "selectors", "compound", "functions", "condition", "deep"]


def size(t):
    return sum(1 + size(x["c"]) for x in t)


def declares(t):
    """Would these selector tokens be taken for a declaration?"""
    if not t:
        return True
    k = 0
    if t[0]["k"] == "e":
        k = 1
    else:
        while k < len(t) and (t[k]["k"] == "id" or t[k]["s"] == "-" and t[k]["k"] == "p"):
            k += 1
        if k == 0:
            return False
    return k < len(t) and t[k]["k"] == "p" and t[k]["s"] == ":"


# ------------------------------------------------------------------ source text
def must_gap(a, b):
    """Would a and b, written together, be tokenised differently?"""
    word = ("id", "lit")
    if a["k"] in word and b["k"] in word:
        return True
    if a["k"] == "id" and b["k"] == "p" and b["s"] in "#'":
        return True
    if a["k"] == "lit" and (b["k"] == "p" and b["s"] in ".#'-+" or b["k"] == "e"):
        return True
    if a["k"] == "p" and b["k"] == "p":
        return a["s"] == "/" and b["s"] in "/*" or a["s"] == "$"
    if a["k"] == "p" and a["s"] in "$'":
        return True
    if a["k"] == "p" and a["s"] == "." and b["k"] == "lit":
        return True
    return False


NOT_RAW = ("self", "Self", "super", "crate", "_")


def source(r, t, style=None):
    """Write tokens; sets the `j` flags to what the text says."""
    style = r.choice([0, 1, 2]) if style is None else style
    gaps = {0: [""], 1: ["", " "], 2: ["", " ", "\n  ", " /* c */ ", "  "]}[style]
    out = []
    for k, x in enumerate(t):
        if x["k"] == "g":
            out.append(x["s"] + source(r, x["c"], style) + {"(": ")", "[": "]", "{": "}"}[x["s"]])
        elif x["k"] == "e":
            out.append("${" + r.choice(["", " "]) + x["src"] + r.choice(["", " "]) + "}")
        elif x["k"] == "id" and x["s"] not in NOT_RAW and not (k and t[k - 1]["s"] == "@") and r.random() < 0.04:
            out.append("r#" + x["s"])      # the same identifier
        else:
            out.append(x["s"])
        if k + 1 < len(t):
            y = t[k + 1]
            gap = "" if x.get("glue") else r.choice(gaps)
            if gap == "" and must_gap(x, y):
                gap = " "
            # `a /` then `/* c */` is fine, `a/` then a comment is not
            if x["k"] == "p" and x["s"] == "/" and gap.startswith("/"):
                gap = " " + gap
            nextp = y["k"] in ("p", "e")
            x["j"] = x["k"] == "p" and gap == "" and nextp
            out.append(gap)
        else:
            x["j"] = False
    return "".join(out)


def rust_str(r, s):
    if "\r" not in s and '"##' not in s and r.random() < 0.5:
        return 'r##"' + s + '"##'
    m = {"\n": "\\n", "\t": "\\t", "\r": "\\r", '"': '\\"', "\\": "\\\\"}
    out = ""
    for c in s:
        if c in m:
            out += m[c]
        elif ord(c) > 126 and r.random() < 0.5:
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return '"' + out + '"'


# ------------------------------------------------------------------ literal invocations
LIT_VALUES = g.VALUES + ["${a}", "1px ${b} 2px", "\"${a}\"", "\"$${a}\"", "\"$$${a}\"", "${a}${a}", "${b}/${a}", "url(${a})", "\"$\"", "\"$${\"", "'$${} ${c}'",
                         "calc(${a} + ${b})", "${ a }", "rgb(${a}, ${b}, ${c})", "\"{a}\"", "\"a$b\"", "${a} ${b} ${c} ${a}", "x${a}y", "${\ta\t}", "${\n  b\n}", "${\r\nc \r\n}", "\"${\ta \n}\""]
LIT_SELS = g.SELS + ["${a}", ".${b}", "${a}, ${b}", "&:not(${c})", "[x=\"${a}\"]", "[x=\"$${a}\"]", "div ${a} p", "${a}${b}", "&${c}", "[y$=\"${b}\"]", ".x${\n\ta\n}"]
LIT_CONDS = g.CONDS + ["${a}", "screen and ${b}", "(max-width: ${a}px)", "(min-width: ${ b }) and (max-width: ${c})", "${a}, ${b}", "(a: ${\t\r\na})"]


class swapped:
    """gen_css with the vocabulary of literal macros."""

    def __enter__(self):
        self.old = g.VALUES, g.SELS, g.CONDS
        g.VALUES, g.SELS, g.CONDS = LIT_VALUES, LIT_SELS, LIT_CONDS

    def __exit__(self, *a):
        g.VALUES, g.SELS, g.CONDS = self.old


def literal(r, ids, p_ev, large=None):
    """(text, names used)"""
    while True:
        with swapped():
            t = g.text(r, g.big(r, large) if large else g.sheet(r))
        if len(t) > (3000 if large else 400) or "/*" in "".join(re.findall(r"\$\{[^}]*\}", t)):
            continue
        names = sorted(set(re.findall(r"\$\{[ \t\r\n]*([A-Za-z][A-Za-z0-9_]*)[ \t\r\n]*\}", t.replace("$${", "@@@"))))
        return t, names


def args_for(r, ids, names, p_ev):
    names = list(names)
    r.shuffle(names)
    out = []
    for n in names:
        src, vs, i = expr(r, ids, p_ev)
        if n in ("px", "name", "ev", "tricky") and False:
            continue
        out.append({"n": n, "vs": vs, "cnt": -1, "src": src, "ev": i})
    return out


def lit_source(r, text, args):
    parts = [rust_str(r, text)]
    for a in args:
        eq = r.choice([" = ", "=", " ="])
        if eq.endswith("=") and a["src"][:1] == "=":
            eq += " "
        parts.append(a["src"] if a["n"] == "" else a["n"] + eq + a["src"])
    return ", ".join(parts) + ("," if r.random() < 0.2 and args else "")


# ------------------------------------------------------------------ cases
def strip(t):
    return [{"k": x["k"], "s": x["s"], "j": x["j"], "c": strip(x["c"]), "vs": x["vs"], "cnt": x["cnt"]} for x in t]


def each_token(t):
    for x in t:
        yield x
        yield from each_token(x["c"])


def inline_case(r, t, want="?", macro=None):
    return {"form": "inline", "toks": t, "args": [], "text": "", "body": source(r, t), "want": want, "macro": macro or pick_macro(r), "delim": r.choice(["()", "{}", "[]"])}


def lit_case(r, text, args, want="?", macro=None, body=None):
    return {"form": "lit", "toks": [], "args": args, "text": text, "body": body or lit_source(r, text, args), "want": want, "macro": macro or pick_macro(r),
            "delim": r.choice(["()", "{}", "[]"])}


def pick_macro(r):
    return r.choice(["sheet"] * 6 + ["css", "style", "global"])


def call(c):
    o, e = c["delim"]
    m = {"sheet": "tree(stylist::ast::sheet!%s)", "css": "style(stylist::Style::new(stylist::css!%s))", "style": "style(stylist::style!%s)",
         "global": "global(stylist::global_style!%s)"}[c["macro"]]
    return m % (o + c["body"] + e)


def write_bin(path, cases):
    """One program; returns [(first line, last line, case index)]."""
    lines, spans = PRELUDE.split("\n"), []
    for i, c in cases:
        a = len(lines) + 1
        src = "fn c%d() -> Obs { %s\n%s\n}" % (i, LOCALS, call(c))
        lines += src.split("\n")
        spans.append((a, len(lines), i))
    lines.append("fn main() { drive(&[%s], %d); }" % (", ".join("(%d, c%d as fn() -> Obs, %s)" % (i, i, "true" if c.get("together") else "false") for i, c in cases), RUNS))
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    return spans


def crate(name):
    d = os.path.join(v.BUILD, "gen", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src", "bin"))
    h = os.path.join(v.VERIF, "harness", "macros")
    shutil.copy(os.path.join(h, "Cargo.toml"), d)
    shutil.copy(os.path.join(h, "Cargo.lock"), d)
    s = open(os.path.join(h, "src", "support.rs")).read().replace("@AST@", os.path.join(v.VERIF, "harness", "core", "src", "ast.rs"))
    open(os.path.join(d, "src", "bin", "support.rs"), "w").write(s)
    open(os.path.join(d, "Cargo.toml"), "a").write("\n")
    return d


def split(idx, n):
    return [idx[k::n] for k in range(n) if idx[k::n]]


def compile_crate(name, cases, idx, parts, mode):
    """Returns {case index: first error} and whether everything compiled."""
    d = crate(name)
    bins, spans = [], {}
    for k, part in enumerate(split(idx, parts)):
        p = os.path.join(d, "src", "bin", "p%d.rs" % k)
        spans["src/bin/p%d.rs" % k] = write_bin(p, [(i, cases[i]) for i in part])
        bins.append(("p%d" % k, part))
    open(os.path.join(d, "Cargo.toml"), "a").write("[package.metadata]\n" + "" if False else "")
    toml = open(os.path.join(d, "Cargo.toml")).read().replace('publish = false', 'publish = false\nautobins = false')
    for b, _ in bins:
        toml += '\n[[bin]]\nname = "%s"\npath = "src/bin/%s.rs"\n' % (b, b)
    open(os.path.join(d, "Cargo.toml"), "w").write(toml)
    p = v.cargo("macros", [mode, "--message-format=json", "--keep-going"], name="macros", cwd=d)
    errs, other = {}, []
    for ln in p.stdout.split("\n"):
        try:
            m = json.loads(ln)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        msg = m["message"]
        hit = False
        for s in msg["spans"]:
            while s:
                for a, b, i in spans.get(s["file_name"], []):
                    if a <= s["line_start"] <= b:
                        errs.setdefault(i, msg["message"])
                        hit = True
                s = (s.get("expansion") or {}).get("span")
        if not hit and not msg["message"].startswith(("aborting", "could not compile")):
            other.append(msg["message"])
    if p.returncode != 0 and not errs:
        v.log(p.stderr[-3000:], other[:5])
        raise v.NoAnswer("building the generated crate failed")
    return errs, p.returncode == 0, bins


def observe(name, cases):
    """Expand every case with the real macros and run what compiles.  Fills in the observations."""
    idx = list(range(len(cases)))
    # 1. which ones do the macros reject? (one deliberate error per program keeps this phase to expansion)
    errs, _, _ = compile_crate(name, cases, idx, 8, "check")
    for c in cases:
        c.update(res="ok", runs=[], same="?")
    for i, m in errs.items():
        cases[i].update(res="err", why=m)
    # 2. build and run the rest; type errors only show now
    good = [i for i in idx if cases[i]["res"] == "ok"]
    for _ in range(4):
        if not good:
            break
        errs, ok, bins = compile_crate(name, cases, good, 8, "build")
        if ok:
            break
        for i, m in errs.items():
            cases[i].update(res="err", why=m)
        good = [i for i in good if i not in errs]
    else:
        raise v.NoAnswer("the generated crate does not build")
    d = v.work("macros-" + name)
    counts = {}
    for b, part in (bins if good else []):
        exe = os.path.join(v.BUILD, "macros", "debug", b)
        o = os.path.join(d, b + ".json")
        try:
            p = subprocess.run([exe, o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            died = p.returncode != 0 or not os.path.exists(o)
        except subprocess.TimeoutExpired:
            died = True
        if died:
            for i in part:
                cases[i].update(runs=[{"res": "died", "ast": [], "id": "", "css": "", "g": False}] * RUNS)
            continue
        res = json.load(open(o))
        for x in res["cases"]:
            cases[x["i"]].update(runs=x["runs"], same=x["same"])
        for i in part:
            c = cases[i]
            for t in list(each_token(c["toks"])) + c["args"]:
                if t["ev"] is not None:
                    t["cnt"] = res["counts"][t["ev"]] if t["ev"] < len(res["counts"]) else 0
    v.clean(d)
    v.clean(os.path.join(v.BUILD, "gen", name))
    return counts


def judge(rep, name, cases, d):
    rows = [{"form": c["form"], "toks": strip(c["toks"]), "chars": list(c["text"]), "args": [{"n": a["n"], "vs": a["vs"], "cnt": a["cnt"]} for a in c["args"]],
             "res": c["res"], "runs": c["runs"], "same": c["same"], "want": c["want"]} for c in cases]
    rej, r = v.judge("JudgeMacro", rows, d, tag="-" + name)
    rep.model("JudgeMacro/" + name, r)
    rep.traces(name, len(cases))
    for i, why in rej:
        c = cases[i]
        rep.violation("%s: %s -> %s %s: %s" % (name, call(c), c["res"], c.get("why") or json.dumps([x.get("ast") or x for x in c["runs"][:1]]), why[:500]),
                      {"macro": call(c), "observed": {"res": c["res"], "why": c.get("why"), "runs": c["runs"]}, "verdict": why})
    return rej


def run(rep, name, cases, d):
    observe(rep.prop, cases)
    judge(rep, name, cases, d)
    acc = sum(c["res"] == "ok" for c in cases)
    rep.note(invocations=len(cases), accepted=acc, rejected=len(cases) - acc)
    for c in cases[:3]:
        rep.sample({"macro": call(c), "res": c["res"], "run1": c["runs"][:1]})


def c15(rep):
    d = v.work("C15")
    r = random.Random(v.seed() * 7919 + 15)
    ids = Ids()
    cases = []
    for _ in range(v.pick(1200, 12000)):
        cases.append(inline_case(r, Gen(r, ids).invocation(), "ok"))
    for k in LARGE * v.pick(3, 20):
        cases.append(inline_case(r, Gen(r, ids).large(k), "ok"))
    run(rep, "inline", cases, d)
    v.clean(d)


def c14(rep):
    d = v.work("C14")
    r = random.Random(v.seed() * 7919 + 14)
    ids = Ids()
    cases = []
    for _ in range(v.pick(1200, 12000)):
        t, names = literal(r, ids, 0)
        cases.append(lit_case(r, t, args_for(r, ids, names, 0.2), "ok"))
    for k in g.BIG * v.pick(2, 12):
        t, names = literal(r, ids, 0, k)
        cases.append(lit_case(r, t, args_for(r, ids, names, 0.2), "ok"))
    run(rep, "literal", cases, d)
    v.clean(d)


def export(rep, cap, r):
    """Token strings the model accepts (or of at most two units), and random ones of the rest."""
    if v.thorough():
        rep.model("MCInline-deep", v.model_check("MCInline", cfg="MCInline-deep.cfg"))
    t = v.model_check("MCInline", env={"EXPORT": "1"})
    rep.model("MCInline", t)
    out = []
    for ln in t.prints:
        m = re.match(r'<<"EXPORT", "(.*)">>$', ln)
        if m:
            out.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\'))["toks"])
    if not out:
        raise v.NoAnswer("nothing was exported")
    out.sort(key=lambda x: json.dumps(x))
    r.shuffle(out)
    return out[:cap]


def revive(t):
    for x in t:
        x.update(cnt=-1, ev=None, src="px" if x["k"] == "e" else None)
        if x["k"] == "e":
            x["vs"] = ["10"] * RUNS
        revive(x["c"])
    return t


def copied(t):
    return [dict(x, c=copied(x["c"]), ev=None, glue=False) for x in t]


def mutate(r, t, pool):
    """One to three random edits of tokens at any depth."""
    t = copied(t)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        lists = [t] + [x["c"] for x in each_token(t) if x["k"] == "g"]
        q = r.choice(lists)
        op = r.choice(["del", "dup", "swap", "ins", "rep", "move", "delim"])
        if not q:
            continue
        k = r.randrange(len(q))
        if op == "del":
            del q[k]
        elif op == "dup":
            q[k:k] = copied([q[k]])
        elif op == "swap" and k + 1 < len(q):
            q[k], q[k + 1] = q[k + 1], q[k]
        elif op == "ins":
            q[k:k] = copied([r.choice(pool)])
        elif op == "rep":
            q[k] = copied([r.choice(pool)])[0]
        elif op == "move":
            x = q.pop(k)
            q2 = r.choice([q] + [y["c"] for y in each_token(q) if y["k"] == "g"])
            q2[r.randint(0, len(q2)):0] = [x]
        elif op == "delim":
            gs = [x for x in q if x["k"] == "g"]
            if gs:
                r.choice(gs)["s"] = r.choice("([{")
    return t


POOL = [P(c) for c in "-:;,&.#>+~*=/%!@^|<?"] + [I("a"), I("and"), I("media"), L("1px"), L('"s"'), G("{", []), G("(", [I("a")]), G("[", [I("a")]),
        G("{", [I("b"), P(":"), L("1px"), P(";")])]


def lit_misuse(r, ids):
    """(kind, text, args, source)"""
    while True:
        t, names = literal(r, ids, 0)
        args = args_for(r, ids, names, 0.2)
        extra = {"vs": ["10"] * RUNS, "cnt": -1, "src": "px", "ev": None}
        k = r.choice(["unused", "missing", "duplicate", "unnamed", "unnamed", "text", "text", "syntax"])
        if k == "unused":
            args.insert(r.randint(0, len(args)), dict(extra, n=r.choice(["zz", "color", "A", "px", "_b", "_", "__unused", "Zz", "z_", "type", "r#fn"])))
            if r.random() < 0.2:
                t += " .e { content: \"$${%s}\"; }" % args[-1]["n"]
        elif k == "missing":
            if not args:
                continue
            k2 = r.randrange(len(args))
            if r.random() < 0.5:
                args.pop(k2)
            else:               # there is one of a similar name
                n = args[k2]["n"]
                n = r.choice([n + "_", "_" + n, n + n, n.upper() if n.upper() != n else n.lower()])
                if n in names:
                    continue
                args[k2] = dict(args[k2], n=n)
        elif k == "duplicate":
            if not args:
                continue
            args.insert(r.randint(0, len(args)), dict(extra, n=r.choice(args)["n"]))
        elif k == "unnamed":
            args.insert(r.randint(0, len(args)), dict(extra, n="", src=r.choice(["px", "10", '"a"', "name.len()", "&name"])))
        elif k == "text":
            t = r.choice([lambda: t + "}", lambda: t + ".a {", lambda: ".z {a: b;} " + t + "@media", lambda: t + '.a { x: "', lambda: "; " + t, lambda: t + " /* ",
                          lambda: t + ".b { : c; }", lambda: t + " .b { c }"])()
        else:
            t = t + r.choice([".q { a: ${; }", ".q { a: ${}; }", ".q { a: ${1}; }", ".q { a: ${b; }", ".q { a: ${a b}; }", ".${ {a: b;}", "@media ${+} {.a{b:c;}}", ".q { a: ${-a}; }"])
        if k == "duplicate" and len({a["n"] for a in args}) == len(args):
            continue
        return k, t, args


def c16(rep):
    d = v.work("C16")
    r = random.Random(v.seed() * 7919 + 16)
    ids = Ids()
    cases, kinds = [], {}
    toks = [t for t in export(rep, 10 ** 6, r) if t[0]["k"] != "lit" or t[0]["s"][0] != '"']    # (a string first: a literal invocation)
    for toks in toks[:v.pick(700, 4000)]:
        cases.append(inline_case(r, revive(toks), "?", "sheet"))
    for _ in range(v.pick(600, 5000)):
        k, t = Gen(r, ids, 0.15, 0).misused()
        kinds[k] = kinds.get(k, 0) + 1
        cases.append(inline_case(r, t, "err"))
    for _ in range(v.pick(300, 2500)):
        k, t, args = lit_misuse(r, ids)
        kinds["literal " + k] = kinds.get("literal " + k, 0) + 1
        cases.append(lit_case(r, t, args, "err"))
    for _ in range(v.pick(700, 6000)):
        while True:
            t = mutate(r, Gen(r, ids, 0.1, 0).invocation(), POOL)
            if t and t[0]["k"] != "lit":
                break
        cases.append(inline_case(r, t, "?", "sheet"))
    rep.note(misuse=kinds)
    run(rep, "misuse", cases, d)
    v.clean(d)


def c17(rep):
    d = v.work("C17")
    r = random.Random(v.seed() * 7919 + 17)
    ids = Ids()
    cases = []
    for _ in range(v.pick(300, 4000)):
        cases.append(inline_case(r, Gen(r, ids, 0.5, 0.8).invocation(), "ok"))
    for _ in range(v.pick(300, 4000)):
        t, names = literal(r, ids, 0)
        cases.append(lit_case(r, t, args_for(r, ids, names, 0.8), "ok"))
    for k in LARGE * v.pick(2, 12):
        cases.append(inline_case(r, Gen(r, ids, 0.5, 0.8).large(k), "ok"))
    for k in ["names"] * v.pick(5, 40):
        t, names = literal(r, ids, 0, k)
        cases.append(lit_case(r, t, args_for(r, ids, names, 0.8), "ok"))
    # invocations with expressions of one form only (or of two)
    for f in (EVS + LIVES) * v.pick(1, 10):
        for two in (False, True):
            FOCUS[:] = [f, r.choice(LIVES)] if two else [f]
            for _ in range(3):
                while True:
                    c = inline_case(r, Gen(r, ids, 0.3).invocation(), "ok")
                    if any(t["k"] == "e" and t["src"] not in ('""', 'String::from("")') for t in each_token(c["toks"])):
                        break
                cases.append(c)
            while True:
                t, names = literal(r, ids, 0)
                if names:
                    break
            cases.append(lit_case(r, t, args_for(r, ids, names, 0), "ok"))
    FOCUS.clear()
    for _ in range(v.pick(150, 2000)):        # nothing to evaluate: equal on every execution
        if r.random() < 0.5:
            cases.append(inline_case(r, Gen(r, ids, 0, 0).invocation(), "ok", "sheet"))
        else:
            while True:
                t, names = literal(r, ids, 0)
                if not names:
                    break
            cases.append(lit_case(r, t, [], "ok", "sheet"))
    for c in cases:
        c["together"] = r.random() < 0.4
    run(rep, "evaluation", cases, d)
    rep.note(counted=sum(t["ev"] is not None for c in cases for t in list(each_token(c["toks"])) + c["args"]))
    v.clean(d)


CHECKS = {"C14": c14, "C15": c15, "C16": c16, "C17": c17}
