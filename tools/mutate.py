#!/usr/bin/env python3
"""mutate.py list|screen|judge: systematic small changes to /repo's sources (a sensitivity study of the checks).

list:   writes every mutant (file, line, old, new) to WORK/mutants.json
screen: keeps those that build and pass the repository's tests (scratch clones)
judge:  runs the checks of the touched part against each survivor, in a private mount namespace
Nothing here is used by a check; results are summarised in DESIGN.md."""
import concurrent.futures as cf
import json
import os
import random
import re
import subprocess
import sys
import threading

WORK = "/tmp/mut"
SKIP = ("packages/stylist/src/lib.rs", "packages/stylist-core/src/lib.rs", "packages/stylist-macros/src/lib.rs", "packages/stylist/src/macros.rs")
SWAPS = [(" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), ("true", "false"), ("false", "true"), (" < ", " <= "), (" <= ", " < "),
         (" > ", " >= "), (" >= ", " > "), (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), (".is_ok()", ".is_err()"), (".is_err()", ".is_ok()"),
         (".any(", ".all("), (".all(", ".any("), ("starts_with(", "ends_with("), ("ends_with(", "starts_with("), ("many0(", "many1("), ("many1(", "many0("),
         (".rev()", ""), (".trim()", ""), (".first()", ".last()"), (".last()", ".first()"), ("first_child", "last_child"), (".skip(1)", ""), (".take(", ".skip("),
         (".min(", ".max("), (".max(", ".min("), ("then_some", "then_none"), ("is_not(", "is_a("), ("none_of(", "one_of("), ("one_of(", "none_of("),
         (" + 1", " + 2"), (" - 1", ""), ("take_while(", "take_while1("), ("take_while1(", "take_while("), ("separated_list0(", "separated_list1("),
         ("separated_list1(", "separated_list0("), ("peek(", "("), ("opt(", "map(|x| Some(x), "), ("if !", "if "), ("(!", "("), (".is_empty()", ".is_empty().eq(&false)"),
         ("Some(id)", "None"), (".push(", ".insert(0, "), (".push_str(", ".insert_str(0, "), ("?;", ".ok();")]


def mutants():
    out = []
    files = subprocess.check_output(["git", "-C", "/repo", "ls-files", "packages/*/src/*.rs", "packages/*/src/**/*.rs"], text=True).split()
    for f in sorted(set(files)):
        if f in SKIP:
            continue
        lines = open("/repo/" + f).read().split("\n")
        for i, ln in enumerate(lines):
            t = ln.strip()
            if t == "#[cfg(test)]" and i + 1 < len(lines) and lines[i + 1].strip().startswith("mod "):
                break
            if not t or t.startswith(("//", "#", "use ", "pub use", "trace!", "mod ", "pub mod")):
                continue
            code = ln.split(" //")[0]

            def add(new, what):
                if new != ln:
                    out.append({"file": f, "line": i, "old": ln, "new": new, "what": what})
            for a, b in SWAPS:
                k = code.find(a)
                while k >= 0:
                    edge = a in ("true", "false") and ((code[k - 1:k] or " ").isalnum() or (code[k + len(a):k + len(a) + 1] or " ").isalnum() or code[k - 1:k] in "_")
                    if not edge:
                        add(ln[:k] + b + ln[k + len(a):], a.strip() + "->" + b.strip())
                    k = code.find(a, k + 1)
            for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w\".])", code):
                add(ln[:m.start()] + str(int(m.group(1)) + 1) + ln[m.end():], "int+1")
            if "expect" not in code and "Error" not in code and "message" not in code and "panic" not in code and "assert" not in code:
                for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', code):
                    toks = re.findall(r"\\.|.", m.group(1))
                    if 0 < len(toks) <= 14:
                        for k in range(len(toks)):
                            add(ln[:m.start(1)] + "".join(toks[:k] + toks[k + 1:]) + ln[m.end(1):], "drop %r" % toks[k])
                    elif toks:
                        add(ln[:m.start(1)] + "".join(toks[:-1]) + ln[m.end(1):], "drop last char")
                for m in re.finditer(r"'(\\?.)'", code):
                    add(ln[:m.start(1)] + "\\x01" + ln[m.end(1):], "char")
            m = re.match(r"(\s*)((?:\} else )?if )(?!let )(.*) \{$", code)
            if m:
                add(m.group(1) + m.group(2) + "true || " + m.group(3) + " {", "if true")
                add(m.group(1) + m.group(2) + "false && (" + m.group(3) + ") {", "if false")
            if t.endswith(";") and not t.startswith(("let ", "return", "pub ", "type ", "static ", "const ", "}", ")", "|", ".")) and t.count("(") == t.count(")"):
                add("", "delete statement")
            if t.endswith(",") and "=>" not in t and ":" not in t.replace("::", "") and t.count("(") == t.count(")"):
                add("", "delete element")
            if re.match(r"\.\w+\(.*\)[;,]?$", t) and t.count("(") == t.count(")"):
                add((";" if t.endswith(";") else "") + ("," if t.endswith(",") else ""), "delete call")
    for k, x in enumerate(out):
        x["n"] = k
    return out


def boring(x):
    """Labels of parsers and messages are not behaviour."""
    return x["what"].startswith("drop ") and bool(re.search(r'"[A-Z][A-Za-z]+"|reason:|unreachable!|_MSG|argument \{\}', x["old"]))


def sh(cmd, cwd, timeout=300, env=None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, start_new_session=True)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        subprocess.run("pkill -9 -f %s/target/debug/deps" % cwd, shell=True)
        return 124, "timeout"


def put(root, x):
    p = os.path.join(root, x["file"])
    s = open(p).read().split("\n")
    assert s[x["line"]] == x["old"]
    s[x["line"]] = x["new"]
    open(p, "w").write("\n".join(s))


def done(name):
    p = os.path.join(WORK, name)
    return {json.loads(q)["n"]: json.loads(q) for q in open(p)} if os.path.exists(p) else {}


def note(name, x):
    with open(os.path.join(WORK, name), "a") as f:
        f.write(json.dumps(x) + "\n")


def screen(workers):
    todo = json.load(open(os.path.join(WORK, "mutants.json")))
    have = done("screened.ndjson")
    todo = [x for x in todo if x["n"] not in have and not boring(x)]
    random.Random(5).shuffle(todo)

    def work(w):
        d = os.path.join(WORK, "r%d" % w)
        if not os.path.exists(d):
            subprocess.check_call(["git", "clone", "-q", "/repo", d])
            subprocess.check_call(["cp", "/repo/Cargo.lock", d])
        sh("git checkout -q -f origin/HEAD", d)
        test = "nice -n 15 cargo test --workspace --all-features --no-fail-fast --offline -q -j 3 -- --test-threads 3"
        rc, o = sh(test, d, 900)
        assert rc == 0, o[-2000:]
        while todo:
            x = todo.pop()
            sh("git checkout -q -- .", d)
            put(d, x)
            rc, o = sh("nice -n 15 cargo test --workspace --all-features --no-run --offline -q -j 3", d, 400)
            if rc:
                note("screened.ndjson", dict(n=x["n"], res="nobuild"))
                continue
            rc, o = sh(test, d, 60)
            note("screened.ndjson", dict(n=x["n"], res="killed" if rc else "survived"))
    with cf.ThreadPoolExecutor(workers) as ex:
        for q in [ex.submit(work, w) for w in range(workers)]:
            q.result()


def checks_for(f):
    if f.endswith("parser.rs"):
        return ["C10", "C11", "C14"]
    if "stylist-core/src/bow" in f:
        return ["C13", "C08"]
    if "stylist-core/src/ast" in f or "stylist-core/src" in f:
        return ["C08", "C07", "C13", "C12", "C10", "C14"]
    if "stylist-macros/src/literal" in f:
        return ["C14", "C16", "C17"]
    if "stylist-macros/src/inline" in f or "spacing" in f:
        return ["C15", "C16", "C17"]
    if "styled_component" in f:
        return ["C18"]
    if "stylist-macros" in f:
        return ["C14", "C16", "C17", "C15"]
    if "hooks/use_media" in f:
        return ["C22"]
    if "yew/" in f:
        return ["C18", "C23", "C19"]
    if f.endswith("ssr.rs"):
        return ["C05", "C04", "C19"]
    return ["C02", "C20", "C06", "C01", "C04", "C24", "C21", "C03"]


def judge(workers=1, only=None):
    """Judges the survivors; of several one-character changes to the same line only the first."""
    every = {x["n"]: x for x in json.load(open(os.path.join(WORK, "mutants.json")))}
    have = done("judged.ndjson")
    lock = threading.Lock()

    def line(x):
        return (x["file"], x["line"], x["what"].split(" ")[0] == "drop" or x["n"])
    taken = {line(every[n]) for n in have}

    def following():
        with lock:
            have.update(done("judged.ndjson"))
            left = [every[n] for n, r in done("screened.ndjson").items() if r["res"] == "survived" and line(every[n]) not in taken]
            left = [x for x in left if not boring(x) and not (only and not re.search(only, x["file"]))]
            if left:
                taken.add(line(left[0]))
                return left[0]

    def work(w):
        for x in iter(following, None):
            one(x, os.path.join(WORK, "p%d" % w), lock)
    with cf.ThreadPoolExecutor(workers) as ex:
        for q in [ex.submit(work, w) for w in range(workers)]:
            q.result()


def one(x, scratch, lock):
    os.makedirs(os.path.join(scratch, "ov"), exist_ok=True)
    json.dump(x, open(os.path.join(scratch, "m.json"), "w"))
    script = """mount --make-rprivate /
mount -t tmpfs -o size=8g tmpfs {s}/ov
mkdir {s}/ov/ru {s}/ov/rw {s}/ov/vu {s}/ov/vw
mount -t overlay overlay -o lowerdir=/repo,upperdir={s}/ov/ru,workdir={s}/ov/rw /repo
mount -t overlay overlay -o lowerdir={w}/v,upperdir={s}/ov/vu,workdir={s}/ov/vw /verif
cd /verif
python3 tools/mutate.py put {s}/m.json || exit 3
for c in {c}; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 bin/check.py $c > {s}/out.$c 2>&1; r=$?
  echo "RESULT $c $r $(tail -c 300 {s}/out.$c | tr '\\n' ' ')"
  [ $r = 1 ] && exit 0
done""".format(s=scratch, w=WORK, c=" ".join(checks_for(x["file"])))
    p = subprocess.run(["unshare", "-m", "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    rs = re.findall(r"RESULT (\S+) (\d+)", p.stdout)
    res = "caught" if any(b == "1" for _, b in rs) else "noanswer" if any(b != "0" for _, b in rs) or not rs else "MISSED"
    with lock:
        note("judged.ndjson", dict(n=x["n"], res=res, checks=rs, out=p.stdout[-400:] if res != "caught" else ""))
        print(x["n"], res, rs, x["file"], x["line"] + 1, x["what"], "|", x["old"].strip()[:100], flush=True)


if __name__ == "__main__":
    a = sys.argv[1]
    os.makedirs(WORK, exist_ok=True)
    if a == "list":
        ms = mutants()
        json.dump(ms, open(os.path.join(WORK, "mutants.json"), "w"))
        print(len(ms))
    elif a == "screen":
        screen(int(sys.argv[2]))
    elif a == "put":
        put("/repo", json.load(open(sys.argv[2])))
    else:
        judge(int(sys.argv[2]), *sys.argv[3:])
