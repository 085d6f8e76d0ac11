"""Runs the real generator, built from /repo, on the fixed documents."""
import os
import re
import shutil
import subprocess
import sys


class Broken(Exception):
    """The generator builds, but what it makes of a supported document is not
    a usable client: nothing the document promises can then hold."""

    def __init__(self, what, detail, **where):
        super().__init__(what)
        self.what, self.detail, self.where = what, detail, where


def generate(V, B, REPO, sh, env, tools=False):
    g = os.path.join(V, "harness", "gen", "generator")
    t = os.path.join(B, "gen")
    if os.path.exists(t):
        subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "sxgenerate"], cwd=g,
                       env=env(CARGO_TARGET_DIR=t), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    sh(["cargo", "build", "--release", "--offline"], g, "generator build", CARGO_TARGET_DIR=t)
    sys.path.insert(0, os.path.join(V, "harness", "gen"))
    sys.dont_write_bytecode = True
    import docs
    runs = docs.TOOL_RUNS if tools else docs.RUNS
    out = os.path.join(B, "tools-gen" if tools else "ops-gen")
    docs.write(out, docs.TOOL_DOCS if tools else docs.DOCS)
    for m, *_ in runs:
        f = os.path.join(out, m + ".rs")
        if os.path.exists(f):
            os.remove(f)
    for m, d, mode, *rest in runs:
        doc = os.path.join(out, d + ".json")
        p = subprocess.run([os.path.join(t, "release", "generate"), doc, mode] + rest, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=120, env=env())
        if p.returncode in (3, 101):
            raise Broken("the generator fails on a supported document", p.stderr[-2000:], document=doc, mode=mode)
        if p.returncode != 0:
            print(p.stderr[-2000:])
            raise RuntimeError("generator exit %d on %s %s" % (p.returncode, d, mode))
        with open(os.path.join(out, m + ".rs"), "w") as o:
            o.write(p.stdout)


def generate_tools(V, B, REPO, sh, env):
    generate(V, B, REPO, sh, env, tools=True)


def source(V, B, REPO, sh, env):
    """The generator's sources with the harness as one more module."""
    out = os.path.join(B, "impl-src")
    shutil.rmtree(out, ignore_errors=True)
    out = os.path.join(out, "progenitor-impl")
    shutil.copytree(os.path.join(REPO, "progenitor-impl", "src"), out)
    h = os.path.join(V, "harness")
    tail = """
#[allow(missing_docs, dead_code, unused)]
#[path = "%s/impl/src/h/mod.rs"]
mod sx_h;
#[allow(missing_docs, dead_code, unused)]
#[path = "%s/client/src/rt.rs"]
mod sx_rt;
""" % (h, h)
    with open(os.path.join(out, "lib.rs")) as f:
        s = f.read()
    with open(os.path.join(out, "main.rs"), "w") as f:
        f.write(s + tail + """
mod sx_native {
    fn lookup(name: &str) -> Option<fn()> {
        crate::sx_h::lookup(name)
    }
    include!("%s/common/native.rs");
    pub fn run() {
        main()
    }
}
fn main() {
    sx_native::run()
}
""" % h)
    with open(os.path.join(out, "lib.rs"), "w") as f:
        f.write(s + tail)


def fronts(V, B, REPO, sh, env):
    """The macro's and the cargo command's sources as plain libraries."""
    out = os.path.join(B, "front-src")
    shutil.rmtree(out, ignore_errors=True)
    m = os.path.join(out, "progenitor-macro")
    shutil.copytree(os.path.join(REPO, "progenitor-macro", "src"), m)
    with open(os.path.join(m, "lib.rs")) as f:
        s = f.read()
    with open(os.path.join(m, "lib.rs"), "w") as f:
        f.write(re.sub(r"(?m)^[ \t]*#\[proc_macro\][ \t]*$", "", s))
    c = os.path.join(out, "cargo-progenitor")
    shutil.copytree(os.path.join(REPO, "cargo-progenitor", "src"), c)
    with open(os.path.join(c, "main.rs")) as f:
        s = f.read()
    with open(os.path.join(c, "lib.rs"), "w") as f:
        f.write(s + """
pub const SX_VERSION: &str = env!("CARGO_PKG_VERSION");
pub fn sx_main() -> bool {
    SxOk::sx_ok(main())
}
trait SxOk {
    fn sx_ok(self) -> bool;
}
impl<T, E> SxOk for std::result::Result<T, E> {
    fn sx_ok(self) -> bool {
        self.is_ok()
    }
}
impl SxOk for () {
    fn sx_ok(self) -> bool {
        true
    }
}
impl SxOk for std::process::ExitCode {
    fn sx_ok(self) -> bool {
        self == std::process::ExitCode::SUCCESS
    }
}
""")
