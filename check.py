#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real canisters.

  python3 check.py --property C01 --tier quick|thorough
  python3 check.py --build            (everything the checks need)

Exit 0: held on everything explored.  Exit 1: VIOLATION, reproduced on the unabstracted code.
Exit 2: no answer (time limit, solver gave up, a counterexample that does not reproduce, nothing reached).
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time
import props, cli.make

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, ".build") if REPO == "/repo" else os.path.join("/tmp", "vb-" + os.path.basename(REPO))
ENGINE = os.path.join(V, ".build/engine/release/wsym")
HARNESS = os.path.join(V, ".build/harness/wasm32-unknown-unknown/release/harness.wasm")
WASM = {m: os.path.join(B, "canisters/wasm32-unknown-unknown/release/%s.wasm" % m) for m in ("core_nft", "index_icrc7")}
WASM["cli"] = os.path.join(B, "cli/canisters/wasm32-unknown-unknown/release/cli.wasm")
PARTS = ("core_nft", "index_icrc7", "cli")

def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    e.update(HOME="/root", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
    e.update(kw)
    return e

def sh(cmd, cwd, e):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))

def build_engine():
    sh(["cargo", "build", "--release", "--offline", "--locked"], os.path.join(V, "engine"), env(CARGO_TARGET_DIR=os.path.join(V, ".build/engine")))

def build_harness():
    sh(["cargo", "build", "--release", "--offline", "--locked", "--target", "wasm32-unknown-unknown"], os.path.join(V, "harness"),
       env(RUSTUP_TOOLCHAIN="1.89.0", CARGO_TARGET_DIR=os.path.join(V, ".build/harness")))

def unpack(d):
    if not os.path.exists(os.path.join(d, "canisters")) and os.path.exists(os.path.join(V, "deps.tar.zst")):
        os.makedirs(d, exist_ok=True)
        subprocess.run("zstd -dc --long=27 %s | tar x -C %s" % (os.path.join(V, "deps.tar.zst"), d), shell=True)

def build_canisters(mods):
    # the real canisters, from the working tree as it is; no link-time optimisation, so that functions keep their names
    # third-party dependencies come prebuilt (pack.sh); without the archive, or where it does not match, cargo builds them
    mods = [m for m in mods if m != "cli"]
    if mods: unpack(B)
    for m in mods:
        sh(["cargo", "rustc", "--crate-type=cdylib", "--target", "wasm32-unknown-unknown", "--release", "--offline", "--locked", "-p", m], REPO,
           env(RUSTUP_TOOLCHAIN="1.89.0", CARGO_TARGET_DIR=os.path.join(B, "canisters"), CARGO_PROFILE_RELEASE_LTO="off",
               CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_RUSTFLAGS="-Clink-arg=--allow-multiple-definition"))

def build_cli():
    # the command line tool's own modules, with stand-ins for the terminal, the files and the network (cli/)
    d = os.path.join(B, "cli")
    cli.make.make(d, REPO)
    unpack(d)
    sh(["cargo", "build", "--target", "wasm32-unknown-unknown", "--release", "--offline"], d,
       env(RUSTUP_TOOLCHAIN="1.89.0", CARGO_TARGET_DIR=os.path.join(d, "canisters"), CARGO_PROFILE_RELEASE_LTO="off",
           CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_RUSTFLAGS="-Clink-arg=--allow-multiple-definition"))

def build(mods):
    t = time.time()
    with cf.ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(build_engine), ex.submit(build_harness), ex.submit(build_canisters, mods)] + ([ex.submit(build_cli)] if "cli" in mods else []):
            f.result()
    return time.time() - t

def modules(r):
    return (["--module", WASM["cli"]] if r.mods == "cli" else ["--module", WASM["core_nft"]] if "core" in r.mods else ["--module", WASM["index_icrc7"]] if r.mods == "index" else []) + \
           (["--module", WASM["index_icrc7"]] if r.mods == "core+index" else [])

def wsym(r, out, tl, extra):
    cmd = [ENGINE, HARNESS] + modules(r) + ["--run", r.name, "--out", out, "--time-limit", str(int(tl))]
    for p in r.params + ([0] * (31 - len(r.params)) + [r.wide] if r.wide else []): cmd += ["--param", str(p)]
    if r.exact_crc: cmd.append("--exact-crc")
    try: p = subprocess.run(cmd + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tl + 60)
    except subprocess.TimeoutExpired: return None, "hard time limit"
    if p.returncode != 0 or not os.path.exists(out): return None, p.stdout[-1500:]
    return json.load(open(out)), ""

def replay(r, values, tag):
    """Run the harness on these values with every abstraction off."""
    d = os.path.join(B, "runs"); os.makedirs(d, exist_ok=True)
    vf = os.path.join(d, tag + ".values")
    open(vf, "w").write("".join("%s=%d\n" % kv for kv in values.items()))
    out = os.path.join(d, tag + ".replay.json")
    if os.path.exists(out): os.remove(out)
    return wsym(r, out, 200, ["--concrete", vf])

def run_one(pid, r, tl):
    d = os.path.join(B, "runs"); os.makedirs(d, exist_ok=True)
    tag = "-".join([pid, r.name] + [str(p) for p in r.params] + (["w%d" % r.wide] if r.wide else []))
    out = os.path.join(d, tag + ".json")
    if os.path.exists(out): os.remove(out)
    o, err = wsym(r, out, tl, [])
    res = dict(run=r, out=o, err=err, tag=tag, confirmed=[], unconfirmed=[], samples=[])
    if o is None: return res
    seen = {}
    for i, v in enumerate(o["violations"]):
        if seen.get(v["label"], 0) >= 2: continue
        c, cerr = replay(r, v["values"], "%s-v%d" % (tag, i))
        ok = c is not None and v["label"] in c["violation_counts"]
        if ok: seen[v["label"]] = seen.get(v["label"], 0) + 1
        (res["confirmed"] if ok else res["unconfirmed"]).append(v)
    # replay some finished paths: the abstractions must not change what happens on them
    if not res["confirmed"]:
        s = o["samples"][:: max(1, len(o["samples"]) // 3)][:4]
        for i, x in enumerate(s):
            c, cerr = replay(r, x["values"], "%s-s%d" % (tag, i))
            good = c is not None and not c["violations"] and not c["errors"] and set(c["covers"]) == set(x["covers"])
            res["samples"].append(dict(values=x["values"], reached=x["covers"], agrees=good))
    return res

def main():
    a = argparse.ArgumentParser()
    a.add_argument("--property"); a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); a.add_argument("--build", action="store_true")
    a.add_argument("--no-build", action="store_true"); a.add_argument("--replay")
    a = a.parse_args()
    t0 = time.time()
    if a.build:
        build(list(PARTS)); print("built in %.0f s" % (time.time() - t0)); return 0
    if a.replay:
        j = json.load(open(a.replay)); r = props.R(**j["run"])
        build([m for m in PARTS if m.split("_")[0] in r.mods])
        c, err = replay(r, j["values"], "user")
        print(json.dumps({k: c[k] for k in ("violation_counts", "covers", "errors")}) if c else err)
        return 1 if c and c["violation_counts"] else 0
    pid = a.property
    runs = [r for r in props.PROPS[pid] if r.tier == "quick" or a.tier == "thorough"]
    # a deeper run replaces the shallower one it extends
    gone = {r.replaces for r in runs if r.replaces}
    runs = [r for r in runs if r.name not in gone]
    mods = [m for m in PARTS if any(m.split("_")[0] in r.mods for r in runs)]
    try: bt = 0 if a.no_build else build(mods)
    except RuntimeError as e: print(str(e)); print("ERROR property=%s the tree does not build" % pid); return 2
    limit = (820 if a.tier == "quick" else 3 * 3600) - bt
    known = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
    known = {k["label"]: k for k in known if k["property"] == pid}
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda r: run_one(pid, r, limit - 90), sorted(runs, key=lambda r: -r.cost)))
    viol, noans, kf = [], [], {}
    for x in res:
        r, o = x["run"], x["out"]
        if o is None: noans.append("%s: %s" % (x["tag"], x["err"])); continue
        real = False
        for v in x["confirmed"]:
            if v["label"] in known: kf.setdefault(v["label"], v)
            else: viol.append((r, v)); real = True
        for v in x["unconfirmed"]: noans.append("%s: counterexample to %s does not reproduce: %s" % (x["tag"], v["label"], v["values"]))
        if not real:
            for e in o["errors"]: noans.append("%s: %s" % (x["tag"], e))
            if o["incomplete"]: noans.append("%s: the solver gave up on %d queries" % (x["tag"], o["incomplete"]))
            for c in r.covers:
                if c not in o["covers"]: noans.append("%s: never reached '%s'" % (x["tag"], c))
            if not sum(n for n, _ in o["checks"].values()): noans.append("%s: no assertion reached" % x["tag"])
            for s in x["samples"]:
                if not s["agrees"]: noans.append("%s: a sampled path behaves differently without the abstractions: %s" % (x["tag"], s["values"]))
    evidence(pid, a.tier, res, bt, time.time() - t0, viol, noans, kf)
    for l, v in sorted(kf.items()): print("KNOWN-FINDING: property=%s %s" % (pid, known[l]["what"]))
    if viol:
        rd = os.path.join(V, "evidence", "replays"); os.makedirs(rd, exist_ok=True)
        for i, (r, v) in enumerate(viol[:5]):
            p = os.path.join(rd, "%s-%d.json" % (pid, i))
            json.dump(dict(property=pid, assertion=v["label"], run=dict(r._asdict()), values=v["values"]), open(p, "w"), indent=1)
            print("assertion '%s' of %s fails for %s" % (v["label"], r.name, v["values"]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    for n in noans: print("NO-ANSWER property=%s %s" % (pid, n))
    if noans: return 2
    n = sum(x["out"]["paths"] for x in res)
    print("OK property=%s tier=%s: %d harnesses, %d paths, %d queries, %.0f s" % (pid, a.tier, len(res), n, sum(x["out"]["queries"] for x in res), time.time() - t0))
    return 0

def evidence(pid, tier, res, bt, wall, viol, noans, kf):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    good = [x for x in res if x["out"]]
    s = lambda k: sum(x["out"][k] for x in good)
    fn = sorted({f for x in good for f in x["out"]["functions"]})
    br = sorted({f for x in good for f in x["out"]["branched_on_symbolic"] if "core_nft" in f or "index_icrc7" in f or "cli::" in f})
    samples = [dict(harness=x["tag"], **{k: y[k] for k in ("values", "reached", "agrees")}) for x in good for y in x["samples"]]
    cov = dict(
        states=s("paths"), transitions=s("forks"), traces_validated_against_impl=len([1 for y in samples if y["agrees"]]) + sum(len(x["confirmed"]) for x in good),
        samples=samples[:12] or [dict(harness=x["tag"], values=v["values"], violated=v["label"]) for x in good for v in x["confirmed"]][:4] or ["no path finished"],
        meaning="states: completed symbolic paths, each standing for every input satisfying its path condition; transitions: points where the solver found both outcomes feasible; traces: concrete replays on the same wasm with every abstraction off",
        queries=dict(discharged=s("queries"), answered_from_cache=s("cache_hits"), sat=s("sat"), unsat=s("unsat"), unknown=s("unknown")),
        solver_seconds=round(s("solver_s"), 2), instructions_executed=s("instructions"), build_seconds=round(bt, 1),
        solver=good[0]["out"]["z3"] if good else "",
        assertions={x["tag"]: {k: dict(evaluated=a, decided_by_solver=b) for k, (a, b) in x["out"]["checks"].items()} for x in good},
        witnesses={x["tag"]: x["out"]["covers"] for x in good},
        bounds=[dict(harness=x["tag"], bound=x["run"].bound, symbolic_variables=x["out"]["vars"], paths=x["out"]["paths"], infeasible=x["out"]["killed"], wall_s=x["out"]["wall_s"]) for x in good],
        encoded_functions=fn, encoded_functions_total=max([x["out"]["functions_executed"] for x in good] or [0]), branched_on_symbolic=br,
        known_findings_seen=sorted(kf), violations=[dict(assertion=v["label"], values=v["values"]) for _, v in viol][:5], no_answer=noans[:10])
    json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", coverage=cov, wall_s=round(wall, 2)),
              open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)

if __name__ == "__main__":
    sys.exit(main())
