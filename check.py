#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current tree.

1. govc generates the proof obligations of every contract the property lists
   from /repo's current source and discharges them with z3/cvc5 (the deciding
   step).
2. The replay harness evaluates the same contract clauses on concrete inputs of
   the real code, compiled from /repo through a build overlay; it supplies the
   failing input when an obligation breaks, and is the labelled bounded
   stand-in for clauses the verifier does not reach.

Exit 0: held.  Exit 1 + VIOLATION line: broken.  Anything else: tool error.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/corywalker/expreduce"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOSUMDB="off")
for k in ("HOME", "GOCACHE", "GOPATH"):
    pass
if "HOME" not in ENV:
    ENV["HOME"] = "/root"


def build_govc():
    exe = os.path.join(V, "govc", "govc")
    src = [os.path.join(V, "govc", f) for f in os.listdir(os.path.join(V, "govc")) if f.endswith(".go")]
    if os.path.exists(exe) and all(os.path.getmtime(exe) >= os.path.getmtime(s) for s in src):
        return exe
    e = dict(ENV, GOFLAGS="-mod=mod")
    r = subprocess.run(["go", "build", "-o", "govc.tmp%d" % os.getpid(), "."], cwd=os.path.join(V, "govc"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout)
        sys.exit("check.py: cannot build govc")
    os.replace(os.path.join(V, "govc", "govc.tmp%d" % os.getpid()), exe)
    return exe


def known_findings(pid):
    out, fixed = {}, []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            m = re.match(r"known: property=(\S+) \| (.*?) \| (.*?) \| (.*)$", l)
            if m and m.group(1) == pid:
                out[m.group(2) + "|" + m.group(3)] = m.group(4)
    return out


def harness(pid, tmp, known, tier, seed):
    """Runs the replay harnesses of the property; returns a list of results."""
    root = os.path.join(V, "harness", pid)
    res = []
    if not os.path.isdir(root):
        return res
    pkgs = {}
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith("_test.go"):
                pkgs.setdefault(os.path.relpath(d, root), []).append(os.path.join(d, f))
    for pkg in sorted(pkgs):
        got = run_pkg(root, pkg, pkgs[pkg], tmp, known, tier, seed)
        if len(pkgs[pkg]) > 1 and any(r["status"] == "not-built" for r in got):
            # one file may use an internal name that this tree no longer has: try them one by one
            got = []
            for f in pkgs[pkg]:
                got += run_pkg(root, pkg, [f], tmp, known, tier, seed)
        res += got
    return res


def run_pkg(root, pkg, hfiles, tmp, known, tier, seed):
    res = []
    files = list(hfiles)
    if True:
        lib = os.path.join(V, "harness", "lib", pkg)
        if os.path.isdir(lib):
            files += [os.path.join(lib, f) for f in sorted(os.listdir(lib)) if f.endswith(".go")]
        src = open(files[0]).read()
        pname = re.search(r"(?m)^package (\w+)", src).group(1)
        tag = pkg.replace("/", "_")
        common = os.path.join(tmp, tag + "_common_test.go")
        open(common, "w").write(open(os.path.join(V, "harness", "common", "common.go.tmpl")).read().replace("package PKG", "package " + pname, 1))
        stub = os.path.join(V, "harness", "common", "rubi_stub.go.txt")
        ov = {"Replace": {os.path.join(REPO, "expreduce/rubi_snapshot/rubi_resources.go"): stub,
                          os.path.join(REPO, pkg, "zz_verif_common_test.go"): common}}
        for f in files:
            b = os.path.basename(f)
            if not b.endswith("_test.go"):
                b = b[:-3] + "_test.go"
            ov["Replace"][os.path.join(REPO, pkg, "zz_verif_" + b)] = f
        # the repository's own tests of the package are not part of this run
        for f in os.listdir(os.path.join(REPO, pkg)) if os.path.isdir(os.path.join(REPO, pkg)) else []:
            if f.endswith("_test.go"):
                ov["Replace"][os.path.join(REPO, pkg, f)] = ""
        ovf = os.path.join(tmp, tag + ".json")
        json.dump(ov, open(ovf, "w"))
        exe = os.path.join(tmp, tag + ".test")
        t0 = time.time()
        b = subprocess.run(["go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", exe, "./" + pkg], cwd=REPO, env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode != 0 or not os.path.exists(exe):
            print("note: replay harness for %s does not build on this tree:\n%s" % (pkg, b.stdout[-1500:]))
            res.append({"pkg": pkg, "status": "not-built", "output": b.stdout[-4000:], "sec": time.time() - t0})
            return res
        names = re.findall(r"(?m)^func (Test\w+)\(", "\n".join(open(f).read() for f in hfiles))
        for n in names:
            out = os.path.join(tmp, tag)
            wd = os.path.join(tmp, "wd_" + tag)
            os.makedirs(wd, exist_ok=True)
            e = dict(ENV, VERIF_OUT=out, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_KNOWN=json.dumps({k: True for k in known}))
            t0 = time.time()
            lim = 1500 if tier == "thorough" else 180
            try:
                r = subprocess.run([exe, "-test.run", "^%s$" % n, "-test.timeout", "%ds" % lim], cwd=wd, env=e,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=lim + 30, errors="replace")
                log, rc = r.stdout, r.returncode
            except subprocess.TimeoutExpired as x:
                log, rc = "timeout", -1
            rec = {"pkg": pkg, "test": n, "status": "ran", "sec": round(time.time() - t0, 2),
                   "cmd": "cd %s && VERIF_SEED=%s go test -vet=off -overlay <overlay of %s> -run '^%s$' ./%s" % (REPO, seed, root, n, pkg)}
            f = "%s.%s.json" % (out, n)
            if os.path.exists(f):
                rec.update(json.load(open(f)))
                if not rec.get("done") and not rec.get("failures"):
                    rec["status"] = "crashed"
            else:
                cur = open(out + ".cur").read() if os.path.exists(out + ".cur") else ""
                rec["status"] = "crashed"
                if cur:
                    msg = next((l for l in log.splitlines() if l.startswith(("fatal error", "panic:", "runtime:"))), "process died, exit %s" % rc)
                    rec["failures"] = [{"clause": "terminates", "input": cur, "expected": "an answer", "got": msg}]
                elif re.search(r"(?m)^(panic:|fatal error:)", log):
                    # the code under test dies before the first case (while it is set up)
                    msg = next(l for l in log.splitlines() if l.startswith(("panic:", "fatal error:")))
                    rec["failures"] = [{"clause": "terminates", "input": "setting up the packages under test", "expected": "no crash", "got": msg}]
                rec["output"] = log[-3000:]
            res.append(rec)
        shutil.rmtree(os.path.join(tmp, "wd_" + tag), ignore_errors=True)
    return res


def trusted_scan(fns):
    a = set()
    for f in fns:
        for x in f.get("assumed", []) or []:
            a.add(x)
    return sorted(a)


def main():
    pid = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    cfg = {}
    cf = os.path.join(V, "checks.json")
    if os.path.exists(cf):
        cfg = json.load(open(cf)).get(pid, {})
    exe = build_govc()
    if os.environ.get("VERIF_NOPROOF"):  # development only
        cfg["noproof"] = True
    known = known_findings(pid)
    tmp = tempfile.mkdtemp(prefix="verif_" + pid + "_")
    try:
        # does the tree build at all?
        b = subprocess.run(["go", "build", "./expreduce/atoms", "./expreduce/matcher", "./expreduce/parser"], cwd=REPO, env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode != 0:
            print(b.stdout)
            sys.exit("check.py: /repo does not build")
        hs = harness(pid, tmp, known, tier, seed)
        bad = [(h, f) for h in hs for f in (h.get("failures") or [])]
        proof = {"functions": [], "missing": []}
        gout = os.path.join(tmp, "govc.json")
        budget = 150 if bad else int(cfg.get("budget", 480))
        if tier == "thorough":
            budget *= 4
        cmd = [exe, "-repo", REPO, "-spec", os.path.join(V, "contracts"), "-prop", pid, "-json", gout, "-budget", str(budget)]
        if not bad:
            cmd.append("-retry")
        plog, prc = "", 0
        if not cfg.get("noproof"):
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, timeout=budget + 120, errors="replace")
                plog, prc = r.stdout, r.returncode
            except subprocess.TimeoutExpired:
                plog, prc = "govc ran out of time", 99
            if prc == 0 and os.path.exists(gout):
                proof = json.load(open(gout))
            elif prc in (3, 4):
                print(plog[-3000:])
        fns = proof.get("functions") or []
        missing = proof.get("missing") or []
        obls = [(f["name"], o) for f in fns for o in (f.get("obligations") or [])]
        failed = [(n, o) for n, o in obls if o["status"] != "discharged"]
        errs = [(f["name"], f["error"]) for f in fns if f.get("error")]
        vac = [f["name"] for f in fns if f.get("reachability") == "unsat"]
        known_obl = {k[len("obligation|"):] for k in known if k.startswith("obligation|")}
        kf = [(n, o) for n, o in failed if o["name"] in known_obl]
        failed = [(n, o) for n, o in failed if o["name"] not in known_obl]
        broken = []
        for n, o in failed:
            broken.append("obligation %s (%s): not discharged [%s]" % (o["name"], n, o.get("output", "")[:200]))
        for n, e in errs:
            broken.append("function %s: outside the verified subset: %s" % (n, e))
        for m in missing:
            broken.append("function under contract is gone: %s" % m)
        for n in vac:
            broken.append("function %s: no return is reachable under its contract" % n)
        if not cfg.get("noproof") and prc != 0:
            broken.append("govc ended with %s: %s" % (prc, plog[-500:]))
        elif not cfg.get("noproof") and not obls:
            broken.append("no obligations were generated")

        by = {}
        for n, o in obls:
            if o["status"] == "discharged":
                by[o["solver"]] = by.get(o["solver"], 0) + 1
        ran = [h for h in hs if h.get("evaluations")]
        samples = [s for h in ran for s in (h.get("samples") or [])][:12]
        hsum = [{k: h.get(k) for k in ("pkg", "test", "status", "evaluations", "distinct_nontrivial", "rule", "bound", "clauses", "sec")} for h in hs]
        level = cfg.get("level", "proof")
        cov = {
            "obligations": len(obls), "discharged": sum(1 for _, o in obls if o["status"] == "discharged"),
            "checker_cmd": " ".join(cmd[:-2] if bad else cmd),
            "trusted_base": cfg.get("trusted", []) + [
                "govc's VC generator over golang.org/x/tools/go/ssa (/verif/govc)", "z3 4.8.12, z3-new, cvc5 1.1.2",
                "axiom blocks: " + ", ".join(proof.get("axiom_blocks") or [])],
            "functions_under_contract": [f["name"] for f in fns],
            "functions_inlined": sorted({x for f in fns for x in (f.get("inlined") or [])}),
            "contracts_assumed_at_calls": trusted_scan(fns),
            "contracts_used_at_calls": sorted({x for f in fns for x in (f.get("contracts_used") or [])}),
            "discharged_by": by, "solver_seconds": round(sum(o.get("sec", 0) for _, o in obls), 1),
            "auto_invariant_candidates": sum(f.get("auto_invariants", 0) for f in fns),
            "loops_with_invariants": sum(f.get("loops", 0) for f in fns),
            "undischarged": [o["name"] for _, o in failed],
            "bounded_replay": hsum,
            "evaluations": sum(h.get("evaluations", 0) for h in ran),
            "distinct_nontrivial": sum(h.get("distinct_nontrivial", 0) for h in ran),
            "rule": "; ".join(h.get("rule", "") for h in ran),
            "samples": samples,
        }
        assumptions = list(cfg.get("assumptions", []))
        for h in hs:
            if h["status"] == "not-built":
                assumptions.append("replay harness for %s did not build on this tree; only the proof was decided" % h["pkg"])
        rdir = os.path.join(V, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        if os.path.exists(os.path.join(rdir, pid + ".json")):
            os.remove(os.path.join(rdir, pid + ".json"))
        lines = []
        nviol = 0
        if bad:
            rp = os.path.join(rdir, pid + ".json")
            json.dump({"property": pid, "failing_inputs": [dict(f, test=h["test"], pkg=h["pkg"], replay_cmd=h["cmd"]) for h, f in bad],
                       "broken_obligations": broken}, open(rp, "w"), indent=1)
            h, f = bad[0]
            print("clause %s violated (%s)\n  input:    %s\n  expected: %s\n  got:      %s" % (f["clause"], h["test"], f["input"][:600], f["expected"][:600], f["got"][:600]))
            for x in broken[:10]:
                print("  also:", x[:300])
            lines.append("VIOLATION property=%s replay=%s" % (pid, rp))
            nviol = len(bad)
        elif broken:
            rp = os.path.join(rdir, pid + ".json")
            crashed = [h for h in hs if h["status"] == "crashed"]
            json.dump({"property": pid, "broken_obligations": broken, "verifier_output": plog[-20000:], "harness_crashes": crashed}, open(rp, "w"), indent=1)
            for x in broken[:20]:
                print(" ", x[:400])
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
            nviol = len(broken)
        else:
            for h in hs:
                if h["status"] == "crashed":
                    print(h.get("output", ""))
                    sys.exit("check.py: harness %s crashed without naming an input" % h["test"])
        for n, o in kf:
            print("KNOWN-FINDING: property=%s obligation %s: %s" % (pid, o["name"], known["obligation|" + o["name"]]))
        for h in hs:
            for k in (h.get("known") or {}):
                print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known.get(k, "")))
        json.dump({"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
                   "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": nviol},
                  open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
        print("%s: %d/%d obligations discharged in %d functions; replay: %d evaluations (%d distinct); %.0f s" % (
            pid, cov["discharged"], cov["obligations"], len(fns), cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
        for l in lines:
            print(l)
        sys.exit(1 if lines else 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
