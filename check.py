#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's current tree.

1. bin/govc generates the proof obligations of the functions, behaviours and lemmas listed for the
   property in contracts/properties.json from /repo's current source and discharges them (z3, cvc5).
2. harness/ (an independent oracle driving /repo's exported API) is rebuilt against /repo and searches
   for a concrete failing input: always for a short time (assumption check of the proof), for longer
   when an obligation fails (replay search).
3. evidence/<property>.json is rewritten.
"""
import json, os, re, signal, subprocess, sys, tempfile, time, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")

def build_govc():
    if not os.path.exists(f"{V}/bin/govc"):
        subprocess.run(["bash", f"{V}/govc/build.sh"], check=True, env=ENV)

def build_harness(tmp):
    src = f"{V}/harness"
    if REPO != "/repo":
        shutil.copytree(src, f"{tmp}/hsrc"); src = f"{tmp}/hsrc"
        m = open(f"{src}/go.mod").read().replace("=> /repo", "=> " + REPO); open(f"{src}/go.mod", "w").write(m)
    p = subprocess.run(["go", "build", "-o", f"{tmp}/harness", "."], cwd=src, env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout); print("harness does not build against " + REPO); sys.exit(2)

def run_harness(tmp, prop, seed, budget, workers, tag):
    """returns (result dict, violation text or None)"""
    out = f"{tmp}/h{tag}.json"
    cmd = [f"{tmp}/harness", "-prop", prop, "-seed", str(seed), "-budget", str(budget),
           "-workers", str(workers), "-src", REPO, "-out", out]
    def go(cmd, limit):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
            return p.returncode, p.stdout.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            return -1, "harness did not finish"
    rc, txt = go(cmd, budget + 60)
    if os.path.exists(out):
        r = json.load(open(out))
        if rc in (0, 1):
            return r, r.get("violation")
    # the code under test took the process down (stack overflow, out of memory): find the call
    j = f"{tmp}/journal"
    rc2, txt2 = go(cmd[:-1] + [out + "2", "-journal", j], budget * 2 + 60)
    if os.path.exists(out + "2"):
        r = json.load(open(out + "2"))
        if r.get("violation"):
            return r, r["violation"]
    call = open(j).read() if os.path.exists(j) else "?"
    return {}, "process ended abnormally (exit %s) in the call\n%s\n%s" % (rc2, call, (txt2 or txt)[:3000])

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = json.load(open(f"{V}/contracts/properties.json"))[prop]
    build_govc()
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        return decide(prop, tier, seed, t0, cfg, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def decide(prop, tier, seed, t0, cfg, tmp):
    thorough = tier == "thorough"
    build_harness(tmp)
    quick_budget = cfg.get("search_s", 12)
    # concrete search and proof run side by side
    gj = f"{tmp}/govc.json"
    cmd = [f"{V}/bin/govc", "-repo", REPO, "-specs", f"{V}/contracts", "-j", "8", "-json", gj]
    if cfg.get("functions"):
        cmd += ["-fn", ",".join(cfg["functions"])]
    if cfg.get("lemmas"):
        cmd += ["-lemma", ",".join(cfg["lemmas"])]
    proving = bool(cfg.get("functions") or cfg.get("lemmas"))
    glog = open(f"{tmp}/govc.log", "w")
    g = subprocess.Popen(cmd, stdout=glog, stderr=subprocess.STDOUT, start_new_session=True) if proving else None
    searched = False
    def stop():
        if g and g.poll() is None:
            os.killpg(g.pid, signal.SIGKILL); g.wait()
    try:
        h, viol = run_harness(tmp, prop, seed, 240 if thorough else quick_budget, 6 if not proving else 3, "1")
        searches = [h]
        gres, failed, errors, timed_out = {"functions": []}, [], [], False
        if g:
            def collect():
                failed, errors = [], []
                if os.path.exists(gj):
                    gres = json.load(open(gj))
                elif viol is not None and os.path.exists(gj + ".part"):
                    gres = json.load(open(gj + ".part"))
                else:
                    gres = {"functions": []}
                    if viol is None: errors.append("the verifier stopped: " + open(f"{tmp}/govc.log").read()[-2000:])
                for f in gres["functions"]:
                    if f.get("error"):
                        errors.append(f"{f['fn']}/{f['behavior']}: {f['error']}")
                    for o in f.get("obligations") or []:
                        if o["status"] not in ("proved", "trivial"):
                            failed.append(f"{f['fn']}/{f['behavior']} {o.get('pos','')} {o['kind']}: {o['name']} [{o['status']}]")
                    for d in f.get("dropped_contract_invariants") or []:
                        if failed:
                            failed.append(f"  ({f['fn']}/{f['behavior']}: contract invariant not inductive: {d})")
                return gres, failed, errors
            def wait(limit):
                g.wait(timeout=max(5, limit - (time.time() - t0)))
            try:
                # with a failing input at hand, the verifier gets less time to name the obligations that fail
                wait(150 if viol is not None else 3000 if thorough else 500)
                gres, failed, errors = collect()
            except subprocess.TimeoutExpired:
                stop()
                if viol is None:
                    timed_out = True
                    errors.append("the verifier did not finish in time")
                else:
                    gres, failed, errors = collect()
            if viol is None and (failed or errors) and not timed_out:
                # look harder for an input, and give the solvers four times as long where they gave up
                bad = sorted({f"{f['fn']}/{f['behavior']}" for f in gres["functions"] if f["behavior"] != "lemma" and
                              (f.get("error") or any(o["status"] not in ("proved", "trivial") for o in f.get("obligations") or []))})
                badl = sorted({f["fn"].removeprefix("lemma ") for f in gres["functions"] if f["behavior"] == "lemma" and
                               (f.get("error") or any(o["status"] not in ("proved", "trivial") for o in f.get("obligations") or []))})
                h, viol = run_harness(tmp, prop, seed + 1000, 90 if len(bad) + len(badl) else 60, 8, "2")
                searches.append(h)
                searched = True
                if viol is None and (bad or badl) and not any(f.get("error") for f in gres["functions"]):
                    gj2 = f"{tmp}/govc2.json"
                    cmd2 = cmd[:cmd.index("-json")] + ["-json", gj2]
                    if bad: cmd2 += ["-fn", ",".join(bad)]
                    if badl: cmd2 += ["-lemma", ",".join(badl)]
                    first = gres
                    g = subprocess.Popen(cmd2, stdout=glog, stderr=subprocess.STDOUT, start_new_session=True, env=dict(ENV, GOVC_SLOW="4"))
                    try:
                        g.wait(timeout=max(30, (3000 if thorough else 780) - (time.time() - t0)))
                        gj = gj2
                        again, failed, errors = collect()
                        key = lambda f: (f["fn"], f["behavior"])
                        redone = {key(f) for f in again["functions"]}
                        gres = dict(first, functions=[f for f in first["functions"] if key(f) not in redone] + again["functions"])
                    except subprocess.TimeoutExpired:
                        stop()
            if viol is None and (failed or errors) and not searched:
                # look harder for an input
                h, viol = run_harness(tmp, prop, seed + 1000, 90, 8, "2")
                searches.append(h)
    finally:
        stop()
    fns = gres["functions"]
    obs = [o for f in fns for o in (f.get("obligations") or [])]
    by = {}
    for o in obs:
        if o["status"] == "proved":
            by[o.get("solver") or "?"] = by.get(o.get("solver") or "?", 0) + 1
        elif o["status"] == "trivial":
            by["simplifier"] = by.get("simplifier", 0) + 1
    cov = {
        "obligations": len(obs),
        "discharged": sum(1 for o in obs if o["status"] in ("proved", "trivial")),
        "checker_cmd": "bin/govc " + " ".join(c.replace(tmp, "$TMP") for c in cmd[1:]),
        "trusted_base": ["govc (this repository's VC generator) and go/ssa", "z3 4.8.12, z3 5.3.2, cvc5 1.1.2",
                         "the text of contracts/*.spec"] + cfg.get("trusted", []),
        "functions_under_contract": sorted({f"{f['fn']}/{f['behavior']}" for f in fns if f["behavior"] != "lemma"}),
        "lemmas": sorted({f["fn"] for f in fns if f["behavior"] == "lemma"}),
        "discharged_by": by,
        "solver_ms": sum(o.get("ms", 0) for o in obs),
        "inlined": sorted({i for f in fns for i in (f.get("inlined") or [])}),
        "external_functions_assumed": gres.get("external") or [],
        "evaluations": sum(s.get("evaluations", 0) for s in searches),
        "distinct_nontrivial": sum(s.get("distinct_nontrivial", 0) for s in searches),
        "rule": "bounded concrete search (never counted as proved): seeded random well-formed documents, edits, paths and arguments "
                "(constants mined from the source) are driven through the exported API of the tree under check and compared with an "
                "independent JSON oracle; a case is non-trivial when the addressed thing exists or the oracle prescribes a specific outcome; "
                "distinct by call text",
        "samples": (searches[0].get("samples") or [])[:3],
        "bounded": cfg.get("bounded", []),
    }
    if viol is not None:
        cov["verifier"] = "a failing input was found first; the verifier had 150 s to name the obligations that fail"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + [
              "int, int64, … arithmetic is mathematical (no overflow); byte arithmetic is modulo 256",
              "callbacks do not write the document they are given",
              "contracts of strconv, fmt and errors functions are assumed"],
          "wall_s": round(time.time() - t0, 1), "violations": 1 if (viol or failed or errors) else 0}
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop}: {cov['discharged']}/{cov['obligations']} obligations discharged, "
          f"{cov['evaluations']} concrete cases, {ev['wall_s']} s")
    if viol is None and not failed and not errors:
        return 0
    os.makedirs(f"{V}/replays", exist_ok=True)
    rp = f"{V}/replays/{prop}.txt"
    with open(rp, "w") as f:
        f.write(f"property {prop}\n")
        for x in errors:
            f.write("verifier error: " + x + "\n")
        for x in failed:
            f.write("failed obligation: " + x + "\n")
        if viol is not None:
            f.write("failing input, found by running the code of the tree under check:\n" + viol + "\n")
            f.write(f"\nreplay: harness -prop {prop} -seed {seed} (see check.py)\n")
        if os.path.exists(f"{tmp}/govc.log"):
            f.write("\nverifier output:\n" + open(f"{tmp}/govc.log").read()[-20000:])
    for x in (errors + failed)[:10]:
        print("  " + x)
    if viol is not None:
        print("  " + viol[:2000].replace("\n", "\n  "))
        print(f"VIOLATION property={prop} replay={rp}")
    else:
        print(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
    return 1

if __name__ == "__main__":
    sys.exit(main())
