#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's current code.

usage: run.py PROPERTY | run.py --setup | run.py --replay FILE

Builds the engine (symx) and the LLVM IR of the harness linked with the real
crates, explores every path of each job with symbolic inputs, lets the SMT
solver decide every check, replays every counterexample against natively
compiled code, and writes evidence/PROPERTY.json.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import jobs as J  # noqa: E402
from genops import Broken  # noqa: E402

B = os.path.join(V, "build")
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOL = "stable-x86_64-unknown-linux-gnu"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
T0 = time.time()
# once a confirmed violation is in hand, jobs still running get this long
FOUND, GRACE = [], 30


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def die(msg, code=2):
    log("ERROR:", msg)
    sys.exit(code)


def env(**k):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOL, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **k)
    for x in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(x, None)
    return e


def sh(cmd, cwd, what, **k):
    p = subprocess.run(cmd, cwd=cwd, env=env(**k), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        die("%s failed (%d)" % (what, p.returncode))
    return p.stdout


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(open(d, "rb").read())
            continue
        for r, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(os.path.relpath(p, d).encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


def build(h, part=None):
    """Engine, IR of harness h and its native replay, from the current tree.

    Where the harness has parts and does not compile as a whole (it is part of
    the crate, and a part may lag behind the crate's internals), the part asked
    for is built alone."""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        eng = os.path.join(B, "symx", "release", "symx")
        H = J.HARNESS[h]
        hd = os.path.join(V, "harness")
        srcs = [os.path.join(hd, H["dir"]), os.path.join(hd, H["dir"] + "-replay"), os.path.join(hd, "common")]
        srcs += [os.path.join(REPO, s) for s in H["repo"]] + [os.path.join(hd, s) for s in H.get("extra", [])]
        key = tree_hash(srcs)
        st = os.path.join(B, h + ".stamp")
        ekey = tree_hash([os.path.join(V, "symx", "src"), os.path.join(V, "symx", "Cargo.toml")])
        est = os.path.join(B, "symx.stamp")
        fresh_e = os.path.exists(eng) and os.path.exists(est) and open(est).read() == ekey
        ll = os.path.join(B, h, "release", "deps", H["lib"] + ".ll")
        rp = os.path.join(B, h + "-replay", "release", H["lib"] + "-replay")
        have = open(st).read() if os.path.exists(st) else ""
        fresh_h = os.path.exists(ll) and os.path.exists(rp) and have in (key, key + "/" + str(part))
        ejob = [(
            "engine build", ["cargo", "build", "--release", "--offline", "--locked"],
            os.path.join(V, "symx"), os.path.join(B, "symx"))]
        if not fresh_h and "generate" in H:
            H["generate"](V, B, REPO, sh, env)

        def attempt(only):
            procs = [] if fresh_e else list(ejob)
            opt = ["--no-default-features", "--features", only] if only else []
            if not fresh_h:
                for x in (st, ll, rp):
                    if os.path.exists(x):
                        os.remove(x)
                for d, t in ((H["dir"], h), (H["dir"] + "-replay", h + "-replay")):
                    # never trust time stamps for what comes from /repo or generators
                    if os.path.exists(os.path.join(B, t)):
                        for p in H["fresh"]:
                            subprocess.run(
                                ["cargo", "clean", "--release", "--offline", "-p", p],
                                cwd=os.path.join(hd, d), env=env(CARGO_TARGET_DIR=os.path.join(B, t)),
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                procs.append((
                    "IR build",
                    ["cargo", "rustc", "--release", "--offline", "--lib"] + opt +
                    ["--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
                    os.path.join(hd, H["dir"]), os.path.join(B, h)))
                procs.append((
                    "replay build",
                    ["cargo", "build", "--release", "--offline"] + opt,
                    os.path.join(hd, H["dir"] + "-replay"), os.path.join(B, h + "-replay")))
            run = []
            for what, cmd, cwd, td in procs:
                run.append((what, subprocess.Popen(
                    cmd, cwd=cwd, env=env(CARGO_TARGET_DIR=td),
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            bad = []
            for what, p in run:
                o, _ = p.communicate()
                if p.returncode != 0:
                    bad.append((what, p.returncode, o))
            return bad

        bad = attempt(None)
        if bad and part and all(
                any("could not compile `%s" % x in o for x in [H["lib"]] + H.get("parted", [])) for _, _, o in bad):
            log("building only the part", part)
            key += "/" + part
            bad = attempt(part)
        for what, rc, o in bad:
            sys.stdout.write(o[-6000:])
            if h in ("ops", "tools") and what != "engine build" and "could not compile `%s" % H["lib"] in o:
                raise Broken("the generated clients do not compile or lack what their documents promise", o[-6000:])
            die("%s failed (%d)" % (what, rc))
        if not fresh_e:
            open(est, "w").write(ekey)
        if not fresh_h:
            if not os.path.exists(ll):
                die("no IR at " + ll)
            open(st, "w").write(key)
    return eng, ll, rp


def symx(eng, ll, entry, args, cap, second=None, concrete=None):
    cmd = [eng, "--ir", ll, "--entry", entry, "--arg", ",".join(map(str, args)), "--max-secs", str(cap)]
    if second:
        cmd += ["--second", second]
    if concrete is not None:
        cmd += ["--concrete", ",".join(str(v) for _, v in concrete)]
    t0 = time.time()
    with tempfile.TemporaryFile("w+") as fo, tempfile.TemporaryFile("w+") as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=env(), start_new_session=True)
        while p.poll() is None:
            t = time.time()
            if t - t0 > cap + 120 or (FOUND and t - FOUND[0] > GRACE):
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
                if FOUND:
                    return {"status": "stopped", "errors": {}, "violations": []}
                return {"status": "timeout", "errors": {}, "violations": [], "hard": True}
            time.sleep(0.005 if t - t0 < 1 else 0.1)
        fo.seek(0)
        fe.seek(0)
        try:
            return json.loads(fo.read())
        except ValueError:
            return {"status": "error", "errors": {"engine exit %d: %s" % (p.returncode, fe.read()[-400:]): 1}, "violations": []}


def native(rp, entry, args, draws):
    p = subprocess.run(
        [rp, entry, ",".join(map(str, args)), ",".join(str(v) for _, v in draws)],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, env=env())
    out = ""
    failed = []
    for ln in p.stdout.splitlines():
        if ln.startswith("out: "):
            out = ln[5:]
        if ln.startswith("failed: "):
            failed.append(ln[8:])
    return p.returncode, out, failed, p.stdout


def show(draws):
    b = bytes(v & 255 for w, v in draws if w == 8)
    return "draws=%s bytes=%r" % ([v for _, v in draws], b)


def confirmed(rp, j, v):
    """Does the counterexample fail natively too?"""
    try:
        rc, out, failed, txt = native(rp, j.entry, j.args, v["draws"])
    except subprocess.TimeoutExpired:
        return v["kind"] == "hang", -1, [], "timeout"
    ok = (v["id"] in failed) if v["kind"] != "panic" else rc == 101 or "panic" in failed or rc < 0
    return ok, rc, failed, txt


def load_known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def is_known(known, prop, job, v):
    """A listed finding names the check, and the exact input bytes."""
    for f in known["findings"]:
        if f["property"] != prop or f.get("status") != "known":
            continue
        if f["check"] == v["id"] and [x for _, x in v["draws"]] in f["inputs"]:
            return f
    return None


def broken(prop, h, e):
    """No client to analyse, although the generator itself builds."""
    os.makedirs(os.path.join(B, "replays"), exist_ok=True)
    p = os.path.join(B, "replays", prop + "-generation.json")
    with open(p, "w") as f:
        json.dump({"property": prop, "harness": h, "kind": "generation", "what": e.what, "where": e.where,
                   "native": e.detail}, f, indent=1)
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 1,
                     "samples": [{"note": e.what, "where": e.where}], "solver_queries": 0},
        "assumptions": J.ASSUME, "wall_s": round(time.time() - T0, 2), "violations": 1,
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    sys.stdout.write(e.detail[-3000:] + "\n")
    log(e.what, e.where)
    print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
    sys.exit(1)


def main():
    prop = sys.argv[1]
    if prop not in J.PROPS:
        die("unknown property " + prop)
    P = J.PROPS[prop]
    built = {}
    jobs = []
    for j in P["jobs"]:
        if j.tier == "thorough" and TIER != "thorough":
            continue
        if j.tier == "quick-only" and TIER == "thorough":
            continue
        if j.h not in built:
            try:
                built[j.h] = build(j.h, j.part)
            except Broken as e:
                broken(prop, j.h, e)
            log("built", j.h)
        jobs.append(j)
    second = None
    if TIER == "thorough":
        second = "cvc5 --lang smt2 --produce-models --incremental --tlimit-per=20000"

    known = load_known()

    def one(j):
        eng, ll, rp = built[j.h]
        if FOUND and time.time() - FOUND[0] > GRACE:
            return j, {"status": "stopped", "violations": [], "validated": 0, "mismatch": [], "shown": []}
        cap = j.cap if TIER != "thorough" else j.cap * 3
        r = symx(eng, ll, j.entry, j.args, cap, second if j.cross else None)
        for v in r.get("violations", []):
            if not FOUND and not is_known(known, prop, j, v) and confirmed(rp, j, v)[0]:
                FOUND.append(time.time())
        r["validated"] = 0
        r["mismatch"] = []
        r["shown"] = []
        if r["status"] in ("ok", "violated", "timeout"):
            for d in (r.get("samples") or [])[:j.samples]:
                try:
                    c = symx(eng, ll, j.entry, j.args, 120, concrete=d)
                    rc, out, failed, txt = native(rp, j.entry, j.args, d)
                except subprocess.TimeoutExpired:
                    r["mismatch"].append("replay timeout")
                    continue
                if rc == 0 and c.get("status") == "ok" and c.get("out") == out:
                    r["validated"] += 1
                    if len(r["shown"]) < 2:
                        r["shown"].append({"entry": j.entry, "args": list(j.args), "draws": [v for _, v in d],
                                           "observed": bytes.fromhex(out).decode("utf8", "replace")[:300]})
                elif r["status"] != "violated" and c.get("status") != "stopped":
                    r["mismatch"].append("%s %s: native rc=%d failed=%s out=%s engine=%s %s" % (
                        j.entry, j.args, rc, failed, out[:200], c.get("status"), c.get("out", "")[:200]))
        return j, r

    with cf.ThreadPoolExecutor(WORKERS) as ex:
        # longest first
        res = list(ex.map(one, sorted(jobs, key=lambda j: -j.cost)))

    viol, hits, errors, incomplete = [], {}, [], []
    reached, solver_checks = {}, {}
    tot = dict(paths=0, forks=0, steps=0, queries=0, sat=0, unsat=0, unknown=0, cache=0, solver=0.0, cross=0, disagree=0)
    fns, lines, irf = set(), set(), set()
    validated = 0
    shown, table = [], []
    for j, r in res:
        name = "%s(%s)" % (j.entry, ",".join(map(str, j.args)))
        validated += r["validated"]
        shown += r["shown"]
        for k in ("paths", "forks", "steps", "queries", "sat", "unsat", "unknown", "cross"):
            tot[k] += r.get(k, 0)
        tot["cache"] += r.get("cache_hits", 0) + r.get("model_hits", 0)
        tot["solver"] += r.get("solver_s", 0.0)
        tot["disagree"] += r.get("cross_disagree", 0)
        fns.update(r.get("source_functions", []))
        lines.update(r.get("source_lines", []))
        irf.update(r.get("ir_functions_filtered", []))
        for k, n in r.get("reach", {}).items():
            reached[k] = reached.get(k, 0) + n
        for k, n in r.get("checks", {}).items():
            s = solver_checks.setdefault(k, [0, 0])
            s[0] += n[0]
            s[1] += n[1]
        table.append({"job": name, "bound": j.bound, "status": r["status"], "paths": r.get("paths", 0),
                      "queries": r.get("queries", 0), "solver_s": r.get("solver_s", 0), "wall_s": r.get("wall_s", 0)})
        if r.get("cross_disagree", 0):
            errors.append("%s: the two solvers disagree" % name)
        bad = False
        for v in r.get("violations", []):
            f = is_known(known, prop, j, v)
            eng, ll, rp = built[j.h]
            ok, rc, failed, txt = confirmed(rp, j, v)
            if not ok:
                errors.append("%s: counterexample for %r does not replay (rc %d, failed %s; %s)" % (
                    name, v["id"], rc, failed, show(v["draws"])))
                continue
            if f:
                hits[f["what"]] = f
                continue
            viol.append((j, v, txt))
            bad = True
        if r["status"] == "timeout":
            if j.optional:
                incomplete.append(name)
            else:
                errors.append("%s: did not finish within its cap" % name)
        if r.get("errors"):
            if j.optional:
                incomplete.append(name + " (" + "; ".join(list(r["errors"])[:1])[:160] + ")")
            else:
                errors.append("%s: %s" % (name, "; ".join("%s x%d" % x for x in list(r["errors"].items())[:3])[:900]))
        for m in r["mismatch"]:
            errors.append("engine and native run differ: " + m)
    for q in P["reach"]:
        if not any(k == "check:" + q or k == q for k in reached) and not viol:
            errors.append("vacuous: check %r was never reached" % q)

    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["steps"],
            "traces_validated_against_impl": validated,
            "samples": shown[:6] or [{"note": "no completed path was sampled"}],
            "state_meaning": "feasible symbolic paths fully explored (each stands for all inputs satisfying its path condition)",
            "transition_meaning": "LLVM IR instructions executed symbolically",
            "forks": tot["forks"],
            "solver_queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"],
            "answered_without_solver": tot["cache"], "solver_s": round(tot["solver"], 3),
            "cross_checked_by_second_solver": tot["cross"], "second_solver_disagreements": tot["disagree"],
            "checks_decided": {k: {"by_solver": v[0], "constant_on_path": v[1]} for k, v in sorted(solver_checks.items())},
            "functions_encoded": sorted(fns)[:200], "ir_functions_encoded": sorted(irf)[:200],
            "source_lines_encoded": sorted(lines, key=lambda s: int(s.split("-")[0]))[:400],
            "bounds": table, "outside_bounds": P["outside"],
            "incomplete_optional": incomplete,
            "known_findings": sorted(hits), "exhaustive": not incomplete and not errors and not viol,
        },
        "assumptions": J.ASSUME + P.get("assume", []),
        "wall_s": round(time.time() - T0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%d jobs, %d paths, %d queries, solver %.1f s, %d traces validated" % (
        len(res), tot["paths"], tot["queries"], tot["solver"], validated))
    for f in hits.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for m in incomplete:
        log("optional bound not completed:", m)
    if viol:
        os.makedirs(os.path.join(B, "replays"), exist_ok=True)
        seen = set()
        for j, v, txt in viol:
            if (j.entry, v["id"]) in seen:
                continue
            seen.add((j.entry, v["id"]))
            p = os.path.join(B, "replays", "%s-%d.json" % (prop, len(seen)))
            with open(p, "w") as f:
                json.dump({"property": prop, "harness": j.h, "part": j.part, "entry": j.entry, "args": list(j.args), "draws": v["draws"],
                           "check": v["id"], "kind": v["kind"], "stack": v["stack"], "native": txt}, f, indent=1)
            log("counterexample: %s(%s) %r %s" % (j.entry, ",".join(map(str, j.args)), v["id"], show(v["draws"])))
            print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
        for e in errors:
            log("also:", e)
        sys.exit(1)
    if errors:
        for e in errors[:20]:
            log("ERROR:", e)
        sys.exit(2)
    log("property %s holds within the stated bounds" % prop)


def replay(path):
    d = json.load(open(path))
    if d.get("kind") == "generation":
        try:
            build(d["harness"])
        except Broken as e:
            print(e.what, e.where, e.detail)
            sys.exit(1)
        print("generates and compiles now")
        sys.exit(0)
    _, _, rp = build(d["harness"], d.get("part"))
    rc, out, failed, txt = native(rp, d["entry"], d["args"], d["draws"])
    print(txt)
    print("failed checks:", failed, "exit", rc)
    sys.exit(1 if failed or rc else 0)


if __name__ == "__main__":
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        for h in J.HARNESS:
            build(h)
            log("built", h)
    elif len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        replay(sys.argv[2])
    else:
        main()
