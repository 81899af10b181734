#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property: compiles /repo's current working tree together with the harness crate to
WebAssembly, executes every harness of the property symbolically (engine/), and asks the SMT
solvers whether any assertion can fail.  exit 0: every obligation was discharged; exit 1: a
counterexample was found and reproduced by running the same module concretely; exit 2: no answer.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props

ENV = dict(os.environ)
ENV.update(
    HOME=ENV.get("HOME", "/root"),
    PATH="/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:" + ENV.get("PATH", ""),
    RUSTUP_TOOLCHAIN="nightly-2024-09-05",
    CARGO_NET_OFFLINE="true",
    CARGO_INCREMENTAL="0",
    CARGO_TERM_COLOR="never",
    RUSTC_WRAPPER="",
)
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
ENGINE = os.path.join(HERE, "engine/target/release/wsym")
HARN = os.path.join(HERE, "harness")
procs = set()


def die(msg):
    print("ERROR:", msg, flush=True)
    kill_all()
    sys.exit(2)


def kill_all():
    for p in list(procs):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


def sh(cmd, cwd, timeout):
    return subprocess.run(cmd, cwd=cwd, env=ENV, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build_engine():
    r = sh(["cargo", "build", "--release", "--offline", "--locked"], os.path.join(HERE, "engine"), 600)
    if r.returncode:
        die("engine does not build\n" + r.stdout[-3000:])


def build_harness(features):
    # never trust modification times for what comes from /repo
    tgt = os.path.join(HARN, "target")
    for pat in ("openzeppelin*", "wsym-harness*"):
        for d in glob.glob(os.path.join(tgt, "**/.fingerprint", pat), recursive=True):
            shutil.rmtree(d, ignore_errors=True)
    cmd = ["cargo", "build", "--release", "--target", "wasm32-unknown-unknown", "--offline", "--locked"]
    cmd += ["--no-default-features", "--features", ",".join(features)]
    r = sh(cmd, HARN, 800)
    if r.returncode:
        errs = "\n".join(x for x in r.stdout.splitlines() if not x.startswith("warning"))
        die("harness does not build against /repo\n" + errs[-4000:])
    return os.path.join(tgt, "wasm32-unknown-unknown/release/wsym_harness.wasm")


def run(cmd, timeout):
    p = subprocess.Popen(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    procs.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -9, "timeout"
    finally:
        procs.discard(p)


def one(wasm, h, tier, limit, scratch):
    name = h if isinstance(h, str) else h[0]
    flags = [] if isinstance(h, str) else list(h[1:])
    out = os.path.join(scratch, name + ".json")
    cmd = [ENGINE, "run", wasm, name, "--out", out, "--time", str(limit)] + flags
    if tier == "thorough":
        cmd.append("--thorough")
    rc, txt = run(cmd, limit + 120)
    try:
        d = json.load(open(out))
    except Exception:
        return {"harness": name, "status": "error", "text": "rc=%s %s" % (rc, txt[-2000:])}
    want = {"proved": 0, "violated": 1, "inconclusive": 2}[d["status"]]
    if rc != want:
        return {"harness": name, "status": "error", "text": "rc=%s %s" % (rc, txt[-2000:])}
    d["text"] = txt
    # validate the executor: replay the witnesses concretely
    d["validated"] = 0
    for i, w in enumerate(d["witnesses"]):
        f = os.path.join(scratch, "%s.w%d.json" % (name, i))
        json.dump(w, open(f, "w"))
        rc, txt = run(["node", os.path.join(HERE, "replay.js"), wasm, f], 120)
        if rc == 0:
            d["validated"] += 1
        else:
            d.setdefault("witness_failures", []).append("%s: rc=%s %s" % (w["msg"], rc, txt[-600:]))
    return d


def known(pid):
    r = []
    f = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l:
                e = json.loads(l)
                if e.get("property") == pid and e.get("status") == "known":
                    r.append(e)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--no-build", action="store_true", help="development: reuse the built module")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    pid, tier = a.prop, a.tier
    t0 = time.time()
    P = props.BY_ID.get(pid)
    if not P or not P["harnesses"]:
        die("unknown property " + pid)
    if not a.no_build:
        build_engine()
        wasm = build_harness(P["features"])
    else:
        wasm = os.path.join(HARN, "target/wasm32-unknown-unknown/release/wsym_harness.wasm")
    t_build = time.time() - t0
    scratch = os.path.join(HERE, "evidence", "." + pid)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    hs = list(P["harnesses"])
    if tier == "thorough":
        hs += P.get("thorough", [])
    limit = 560 if tier == "quick" else 5400
    kn = known(pid)
    res, bad, errors, knownhits = [], [], [], []
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        futs = {ex.submit(one, wasm, h, tier, limit, scratch): h for h in hs}
        for f in cf.as_completed(futs):
            d = f.result()
            res.append(d)
            n = d["harness"]
            if d["status"] == "proved":
                miss = [k for k in P.get("covers", {}).get(n, []) if k not in d["covers"]]
                if not [k for k in d["covers"] if k != "<end>"] or miss:
                    errors.append("%s: vacuous (no cover point reached) %s" % (n, miss))
                elif d.get("witness_failures"):
                    errors.append("%s: a witness does not replay: %s" % (n, d["witness_failures"][0]))
                else:
                    print("ok   %-34s paths=%d obligations=%d queries=%d solver=%.1fs witnesses=%d" % (n, d["paths"], d["obligations"], d["queries"], d["solver_time"], d["validated"]), flush=True)
            elif d["status"] == "violated":
                got = False
                for v in d["violations"]:
                    key = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
                    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
                    vf = os.path.join(HERE, "evidence", "replays", "%s-%s-%s.json" % (pid, n, key))
                    json.dump(v, open(vf, "w"), indent=1)
                    rc, txt = run(["node", os.path.join(HERE, "replay.js"), wasm, vf], 120)
                    if rc == 1:
                        got = True
                        k = [e for e in kn if e["harness"] == n and e["msg"] == v["msg"]]
                        if k:
                            knownhits.append((k[0], vf))
                        else:
                            bad.append((n, v, vf, txt))
                        break
                if not got:
                    errors.append("%s: counterexample to '%s' does not replay: %s" % (n, d["violations"][0]["msg"], txt[-800:]))
                if bad:
                    # one confirmed counterexample decides
                    for g in futs:
                        g.cancel()
                    kill_all()
                    break
            else:
                errors.append("%s: %s %s" % (n, d["status"], d.get("inconclusive") or d.get("text", "")))
    wall = time.time() - t0
    good = [d for d in res if d["status"] == "proved"]
    fns = sorted({x for d in res for x in d.get("functions", []) if "wsym_harness" not in x and "::" in x})
    mine = [x for x in fns if "openzeppelin" in x]
    cov = {
        "states": sum(d.get("paths", 0) for d in res),
        "transitions": sum(d.get("instructions", 0) for d in res),
        "traces_validated_against_impl": sum(d.get("validated", 0) for d in res) + len(bad) + len(knownhits),
        "samples": [
            {"harness": d["harness"], "covers": d["covers"], "checks": d["checks"], "witness_inputs": (d["witnesses"] or [{}])[0].get("inputs")}
            for d in good[:3]
        ],
        "meaning": "states = completed symbolic paths (each stands for every input, storage content and call result satisfying its path condition); transitions = WebAssembly instructions executed symbolically; traces = solver models replayed concretely in V8 on the same module",
        "bounds": P.get("bounds", "none besides those listed per harness"),
        "harness_bounds": {d["harness"]: d.get("bounds", {}) for d in res if d.get("bounds")},
        "obligations": sum(d.get("obligations", 0) for d in res),
        "queries_discharged": sum(d.get("unsat", 0) for d in res),
        "queries": sum(d.get("queries", 0) for d in res),
        "solver_time_s": round(sum(d.get("solver_time", 0) for d in res), 2),
        "solvers": "z3-new 5.3.2, cvc5 1.1.2 (portfolio)",
        "harnesses": {d["harness"]: {k: d.get(k) for k in ("status", "paths", "obligations", "queries", "sat", "unsat", "unknown", "solver_time", "wall", "covers", "validated")} for d in res},
        "functions_encoded": mine,
        "functions_encoded_total": len(fns),
        "build_s": round(t_build, 1),
    }
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": cov, "assumptions": props.COMMON_ASSUMPTIONS + P.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(bad),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(scratch, ignore_errors=True)
    for k, vf in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if bad:
        for n, v, vf, txt in bad:
            print("harness %s: '%s' fails" % (n, v["msg"]))
            print(txt)
            print("VIOLATION property=%s replay=%s" % (pid, vf), flush=True)
        kill_all()
        os._exit(1)
    if errors:
        for e in errors:
            print("ERROR:", e)
        os._exit(2)
    print("%s held: %d harnesses, %d obligations, %d queries, solver %.1f s, wall %.1f s" % (pid, len(res), cov["obligations"], cov["queries"], cov["solver_time_s"], wall))
    sys.exit(0)


if __name__ == "__main__":
    main()
