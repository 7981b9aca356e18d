#!/usr/bin/env python3
"""seed.py FILE.py [ID..]: build and confirm planted bugs in a scratch clone of /repo.

FILE.py defines BUGS: dicts with id, property, needs, breaks, edits [(file, old, new)], kind (a key of
DEPS) and main (the demonstration's main.rs, or demo: a whole demo.sh). A bug is kept under
/verif/seeded/ID only when the changed tree builds and passes the tests, and its demonstration
passes without and fails with the change."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
SC = "/tmp/seed/repo"
DEPS = {
    "lib": 'stylist = { path = "@REPO@/packages/stylist", features = ["ssr", "hydration", "parser", "macros"] }\nserde_json = "1"',
    "norandom": 'stylist = { path = "@REPO@/packages/stylist", default-features = false, features = ["parser"] }',
    "release": 'stylist = { path = "@REPO@/packages/stylist", default-features = false, features = ["random", "parser"] }',
    "lean": 'stylist = { path = "@REPO@/packages/stylist", default-features = false, features = ["random", "parser"] }\n'
            '\n[profile.dev.package.stylist]\ndebug-assertions = false\n',
    "ssr": 'stylist = { path = "@REPO@/packages/stylist", features = ["ssr", "hydration", "yew_integration", "parser", "macros"] }\n'
           'yew = { version = "0.22", features = ["ssr"] }\ntokio = { version = "1", features = ["rt", "macros"] }',
    "corebin": 'stylist-core = { path = "@REPO@/packages/stylist-core", features = ["parser"] }\nbincode = "1"',
    "core": 'stylist-core = { path = "@REPO@/packages/stylist-core", features = ["parser"] }\nserde_json = "1"',
}
DEMO = """#!/bin/bash
# Runs the small program beside this file against the crates of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cp "$here/Cargo.lock" "$work/Cargo.lock"
cp "$here/main.rs" "$work/src/main.rs"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTC_WRAPPER=
cd "$work" && cargo run -q --offline
"""
TOML = """[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
%s

[profile.dev]
debug = false
incremental = false
"""


DOM_DEMO = """#!/bin/bash
# Builds the current directory's crates with their browser code against the in-memory browser beside
# this file, runs cases.json and looks at what happened.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$here/harness" "$work/harness"
python3 "$here/prepare.py" "$work" || exit 2
sed -i "s#../../../repo/#$repo/#" "$work/harness/dom/Cargo.toml"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTC_WRAPPER="$work/harness/dom/rustc-wrapper.sh"
(cd "$work/harness/dom" && cargo build -q --offline) || exit 2
"$work/target/debug/vh-dom" @CMD@ "$here/cases.json" "$work/out.json" || exit 2
python3 "$here/judge.py" "$work/out.json"
"""
PREPARE = """import glob, os, shutil, subprocess, sys, tarfile
work = sys.argv[1]
to = os.path.join(work, ".build", "patched")
os.makedirs(to)
reg = os.path.join(os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo"), "registry")
for name, ver in (("wasm-bindgen", "0.2.130"), ("wasm-bindgen-macro-support", "0.2.130"), ("yew", "0.22.0")):
    full, d = name + "-" + ver, os.path.join(to, name)
    src = glob.glob(os.path.join(reg, "src", "*", full))
    if src:
        shutil.copytree(src[0], d)
    else:
        with tarfile.open(glob.glob(os.path.join(reg, "cache", "*", full + ".crate"))[0]) as t:
            t.extractall(to)
        os.rename(os.path.join(to, full), d)
    subprocess.check_call(["patch", "-p1", "-s", "-d", d, "-i", os.path.join(work, "harness", "dom", "patch", name + ".txt")])
shutil.copy(os.path.join(work, "harness", "dom", "patch", "native.rs"), os.path.join(to, "wasm-bindgen", "src", "native.rs"))
"""


def browser(d, b):
    h, src = os.path.join(d, "harness"), os.path.join(ROOT, "..", "harness")
    shutil.rmtree(h, ignore_errors=True)
    shutil.copytree(os.path.join(src, "dom"), os.path.join(h, "dom"))
    for f in os.listdir(os.path.join(h, "dom", "patch")):
        if f.endswith(".patch"):
            os.rename(os.path.join(h, "dom", "patch", f), os.path.join(h, "dom", "patch", f[:-6] + ".txt"))
    for f in ("core/src/ast.rs", "ssr/src/tree.rs"):
        os.makedirs(os.path.dirname(os.path.join(h, f)), exist_ok=True)
        shutil.copy(os.path.join(src, f), os.path.join(h, f))
    open(os.path.join(d, "demo.sh"), "w").write(DOM_DEMO.replace("@CMD@", b["cmd"]))
    open(os.path.join(d, "prepare.py"), "w").write(PREPARE)
    open(os.path.join(d, "cases.json"), "w").write(json.dumps(b["cases"], indent=1))
    open(os.path.join(d, "judge.py"), "w").write("import json, sys\no = json.load(open(sys.argv[1]))\n" + b["judge"])


def sh(cmd, cwd=SC, timeout=900, env=None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never")
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    return p.returncode, p.stdout.decode(errors="replace")


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = sys.argv[2:]
    if not os.path.exists(SC):
        subprocess.check_call(["git", "clone", "-q", "/repo", SC])
        shutil.copy("/repo/Cargo.lock", SC)
    sh("git fetch -q && git checkout -q -f origin/HEAD")
    for b in m.BUGS:
        if only and b["id"] not in only:
            continue
        d = os.path.join(ROOT, b["id"])
        sh("git checkout -q -- .")
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(SC, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches", s.count(old), "times:", old[:60])
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        _, diff = sh("git diff")
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        if "cmd" in b:
            browser(d, b)
        elif "demo" in b:
            open(os.path.join(d, "demo.sh"), "w").write(b["demo"])
            if "kind" in b:
                open(os.path.join(d, "Cargo.toml.in"), "w").write(TOML % (DEPS[b["kind"]] + b.get("toml", "")))
                shutil.copy("/opt/vp/Cargo.lock", d)
            for k, t in b.get("files", {}).items():
                open(os.path.join(d, k), "w").write(t)
        else:
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            open(os.path.join(d, "main.rs"), "w").write(b["main"])
            open(os.path.join(d, "Cargo.toml.in"), "w").write(TOML % (DEPS[b["kind"]] + b.get("toml", "")))
            shutil.copy("/opt/vp/Cargo.lock", d)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        if b.get("kind") == "lean" or "toml" in b:      # an application's build must not fail over its dependencies' lints
            q = os.path.join(d, "demo.sh")
            t = open(q).read().replace("cargo run", 'RUSTFLAGS="--cap-lints=warn" cargo run')
            open(q, "w").write(t)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, out = sh("cargo test --workspace --all-features --no-fail-fast --offline -q -- --test-threads 8")
        if rc:
            print(b["id"], "TESTS FAIL:", out[-1500:])
            shutil.rmtree(d)
            continue
        rc1, o1 = sh(os.path.abspath(os.path.join(d, "demo.sh")))
        sh("git checkout -q -- .")
        rc0, o0 = sh(os.path.abspath(os.path.join(d, "demo.sh")))
        if rc0 == 0 and rc1 != 0 and "error: could not compile" not in o1.replace(b.get("compile_ok", "\0"), ""):
            print(b["id"], "kept:", o1.strip().splitlines()[-3:][:1])
        else:
            print(b["id"], "NOT CONFIRMED clean rc", rc0, "patched rc", rc1, "\n", o0[-500:], "\n--\n", o1[-500:])
            shutil.rmtree(d)


main()
