#!/usr/bin/env python3
"""Builds seeded/<id>/ from the descriptions in the *.seed.py files beside this one.

Each calls S(id, prop, needs, breaks, [(old, new), ...], main_rs). The change
is made in a scratch copy, its diff becomes patch.diff."""
import glob, json, os, shutil, subprocess, sys
V = "/verif"
sys.path.insert(0, V + "/harness/gen")
sys.dont_write_bytecode = True
import docs as D
F = "progenitor-client/src/progenitor_client.rs"
DEMO = """#!/bin/bash
# Exit 0: the guarantee holds. Builds main.rs against /repo/progenitor-client in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
rm -rf /tmp/progenitor-client-demo-scratch
mkdir -p /tmp/progenitor-client-demo-scratch/src
cp "$D/main.rs" "$D/support.rs" /tmp/progenitor-client-demo-scratch/src/
cp "$D/demo.lock" /tmp/progenitor-client-demo-scratch/Cargo.lock
cp "$D/demo.toml" /tmp/progenitor-client-demo-scratch/Cargo.toml
cd /tmp/progenitor-client-demo-scratch
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/progenitor-client-demo-scratch/target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cargo run -q --offline
rc=$?
rm -rf /tmp/progenitor-client-demo-scratch
exit $rc
"""
TOML = open(V + "/harness/client-replay/Cargo.toml").read().replace("sxclient-replay", "demo")
TOML = TOML[:TOML.index("[profile")]
LOCK = open(V + "/harness/client-replay/Cargo.lock").read().replace("sxclient-replay", "demo")
SUPPORT = open(V + "/tools/seeds/support.rs").read()
only = set(sys.argv[1:])
GDEMO = """#!/bin/bash
# Exit 0: the guarantee holds. Generates a client for doc.json with /repo's
# generator (its dependencies that are not installed replaced by stand-ins) and runs main.rs with it.
D=$(cd "$(dirname "$0")" && pwd)
S=/tmp/progenitor-gen-demo-scratch
rm -rf /tmp/progenitor-gen-demo-scratch
mkdir -p $S
cp -r "$D/kit/." $S/
cp "$D/main.rs" $S/client/src/main.rs
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$S/target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
(cd $S/generator && cargo build -q --offline) || { rm -rf /tmp/progenitor-gen-demo-scratch; exit 3; }
rc=0
@RUNS@
if [ $rc = 0 ]; then (cd $S/client && cargo run -q --offline); rc=$?; fi
rm -rf /tmp/progenitor-gen-demo-scratch
exit $rc
"""


def patch(d, id, file, edits):
    src = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + file], stdout=subprocess.PIPE, text=True, check=True).stdout
    new = src
    for a, b in edits:
        assert new.count(a) == 1, (id, new.count(a), a)
        new = new.replace(a, b)
    t = "/tmp/seedmk"
    shutil.rmtree(t, ignore_errors=True)
    for x, c in (("a", src), ("b", new)):
        p = os.path.join(t, x, file)
        os.makedirs(os.path.dirname(p))
        open(p, "w").write(c)
    p = subprocess.run(["git", "diff", "--no-index", "--no-color", "a", "b"], cwd=t, stdout=subprocess.PIPE, text=True)
    shutil.rmtree(t)
    return p.stdout.replace("a/a/", "a/").replace("b/b/", "b/")


def GS(id, prop, needs, breaks, edits, runs, main, docs, file="progenitor-impl/src/method.rs"):
    """A change to the generator; runs: (module, mode, document name[, crate])."""
    if only and id not in only:
        return
    d = V + "/seeded/" + id
    shutil.rmtree(d, ignore_errors=True)
    k = d + "/kit"
    H = V + "/harness"
    skip = shutil.ignore_patterns("target")
    shutil.copytree(H + "/gen/stubs", k + "/stubs", ignore=skip)
    shutil.copytree(H + "/gen/generator", k + "/generator", ignore=skip)
    os.makedirs(k + "/client/src")
    tools = any(r[1] in ("cli", "httpmock") for r in runs)
    r = H + ("/tools-replay" if tools else "/ops-replay")
    n = "sxtools-replay" if tools else "sxops-replay"
    t = open(r + "/Cargo.toml").read().replace(n, "demo").replace("../gen/stubs/", "../stubs/")
    open(k + "/client/Cargo.toml", "w").write(t[:t.index("[profile")])
    open(k + "/client/Cargo.lock", "w").write(open(r + "/Cargo.lock").read().replace(n, "demo"))
    shutil.copy(H + "/ops/src/net.rs", k + "/client/src/net.rs")
    refuse = main is None
    main = main or "fn main() {}\n"
    rest = "#![allow(unused, clippy::all)]\nmod net;\nuse net::{net, answer};\n"
    lines = []
    for m, mode, doc, *cr in runs:
        json.dump(docs[doc], open(k + "/%s.json" % doc, "w"), indent=1)
        lines.append("$S/target/debug/generate $S/%s.json %s %s > $S/client/src/%s.gen.rs || rc=4" % (doc, mode, " ".join(cr), m))
        rest += "pub mod %s {\n" % m + ("" if mode in ("cli", "httpmock") else "    pub mod reqwest {\n        pub use ::reqwest::*;\n        pub use crate::net::{Client, ClientBuilder};\n    }\n") + "    include!(\"%s.gen.rs\");\n}\n" % m
    open(d + "/patch.diff", "w").write(patch(d, id, file, edits))
    g = GDEMO.replace("@RUNS@", "\n".join(lines))
    if refuse:
        a, b = g.index("if [ $rc = 0 ]"), g.index("rm -rf /tmp/progenitor-gen-demo-scratch\nexit")
        g = g[:a] + "# the document must be refused\nif [ $rc = 0 ]; then rc=1; else rc=0; fi\n" + g[b:]
    open(d + "/demo.sh", "w").write(g)
    open(d + "/main.rs", "w").write(rest + main.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(id)


def S(id, prop, needs, breaks, edits, main, file=F):
    if only and id not in only:
        return
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch(d, id, file, edits))
    open(d + "/demo.sh", "w").write(DEMO)
    open(d + "/demo.toml", "w").write(TOML)
    open(d + "/demo.lock", "w").write(LOCK)
    open(d + "/support.rs", "w").write(SUPPORT)
    open(d + "/main.rs", "w").write("mod support;\nuse support::*;\n" + main.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(id)


FDEMO = """#!/bin/bash
# Exit 0: the guarantee holds. Builds /repo's macro and cargo command as plain libraries (what is
# not installed replaced by stand-ins) and runs main.rs with them.
D=$(cd "$(dirname "$0")" && pwd)
S=/tmp/progenitor-front-demo-scratch
rm -rf /tmp/progenitor-front-demo-scratch
mkdir -p $S
cp -r "$D/kit/." $S/
mkdir -p $S/demo/src
cp "$D/main.rs" $S/demo/src/main.rs
cp -r /repo/progenitor-macro/src $S/front/macro/src
sed -i '/^ *#\\[proc_macro\\] *$/d' $S/front/macro/src/lib.rs
cp -r /repo/cargo-progenitor/src $S/front/cargo/src
mv $S/front/cargo/src/main.rs $S/front/cargo/src/lib.rs
echo 'pub fn sx_main() -> bool { main().is_ok() }' >> $S/front/cargo/src/lib.rs
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$S/target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
(cd $S/demo && cargo build -q --offline && mkdir $S/work && cd $S/work && $S/target/debug/demo)
rc=$?
rm -rf /tmp/progenitor-front-demo-scratch
exit $rc
"""
FMAIN = """#![allow(unused)]
use std::path::Path;
const DOC: &str = r##"{"openapi":"3.0.0","info":{"title":"t","version":"1"},"paths":{"/a/{id}":{"get":{"operationId":"geta","parameters":[{"name":"id","in":"path","required":true,"schema":{"type":"string"}}],"responses":{"200":{"description":"","content":{"application/json":{"schema":{"$ref":"#/components/schemas/Thing"}}}}}}}},"components":{"schemas":{"Thing":{"type":"object","required":["a"],"properties":{"a":{"type":"string"}}}}}}"##;
/// What the macro expands to and what typify was told; None for a compile error.
fn expand(args: &str) -> Option<(String, typify::TypeSpaceSettings)> {
    typify::told();
    let out = progenitor_macro::generate_api(args.parse().unwrap()).to_string();
    if out.contains("compile_error") {
        return None;
    }
    Some((out, typify::told().unwrap()))
}
fn command(more: &[&str]) -> bool {
    let mut v: Vec<String> = ["cargo", "progenitor", "-i", "d.json", "-o", "out", "-n", "nm", "-v", "1"].iter().map(|s| s.to_string()).collect();
    v.extend(more.iter().map(|s| s.to_string()));
    clap::set_argv(v);
    cargo_progenitor::sx_main()
}
fn main() {
    let dir = std::env::current_dir().unwrap();
    std::env::set_var("CARGO_MANIFEST_DIR", &dir);
    std::fs::write("d.json", DOC).unwrap();
"""


def FS(id, prop, needs, breaks, edits, main, file):
    """A change to the macro, the cargo command or what they call."""
    if only and id not in only:
        return
    d = V + "/seeded/" + id
    shutil.rmtree(d, ignore_errors=True)
    k = d + "/kit"
    H = V + "/harness"
    skip = shutil.ignore_patterns("target", "httpmock", "jsonschema", "rand")
    shutil.copytree(H + "/gen/stubs", k + "/stubs", ignore=skip)
    shutil.copytree(H + "/gen/front", k + "/front", ignore=skip)
    for x, f in (("macro", "progenitor-macro"), ("cargo", "cargo-progenitor")):
        p = k + "/front/%s/Cargo.toml" % x
        t = open(p).read().replace("../../../../build/front-src/%s/lib.rs" % f, "src/lib.rs")
        open(p, "w").write(t)
    os.makedirs(k + "/demo")
    t = open(H + "/front-replay/Cargo.toml").read().replace("sxfront-replay", "demo").replace("../gen/", "../")
    open(k + "/demo/Cargo.toml", "w").write(t[:t.index("[profile")])
    open(k + "/demo/Cargo.lock", "w").write(open(H + "/front-replay/Cargo.lock").read().replace("sxfront-replay", "demo"))
    open(d + "/patch.diff", "w").write(patch(d, id, file, edits))
    open(d + "/demo.sh", "w").write(FDEMO)
    open(d + "/main.rs", "w").write(FMAIN + main.lstrip("\n") + "}\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(id)


for f in sorted(glob.glob(V + "/tools/seeds/*.seed.py")):
    exec(open(f).read())
