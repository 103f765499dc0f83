#!/usr/bin/env python3
"""Decide one property: generate the obligations from the sources of the tree,
discharge them, write the evidence, and on a failed obligation replay the
property against the real code to look for a failing input."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT124 = "/opt/veriftools/go1.24.13"


def go_env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")
    return e


def engine():
    """Build the engine when it is missing or older than its sources."""
    out = os.path.join(VERIF, "bin", "govc")
    src = [os.path.join(VERIF, "engine", f) for f in os.listdir(os.path.join(VERIF, "engine"))]
    if os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(s) for s in src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = subprocess.run(["go", "build", "-o", out, "."], cwd=os.path.join(VERIF, "engine"), env=go_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("engine build failed:\n" + r.stdout)
        sys.exit(2)
    return out


def known(prop):
    """Entries of the committed known-findings file for this property."""
    r = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p))["findings"]:
            if k["property"] == prop and not k.get("fixed"):
                r.append(k)
    return r


def replay(prop, budget):
    """Run the replay tests of the property in a scratch copy of the tree."""
    files = []
    for root, _, fs in os.walk(os.path.join(VERIF, "replay")):
        for f in sorted(fs):
            if f.endswith("_test.go") and re.search(r"^func TestVerif%s|^//verif:with.*\b%s\b" % (prop, prop), open(os.path.join(root, f)).read(), re.M):
                files.append((root, f))
    if not files:
        return None, "no replay harness for this property"
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        dst = os.path.join(scratch, "repo")
        shutil.copytree(REPO, dst, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        pki = os.path.join(dst, "proxy", "internal", "pki")
        if os.path.isdir(pki):
            for f in ("pki.wasm.bz2", "wasm_exec.js"):
                if not os.path.exists(os.path.join(pki, f)):
                    open(os.path.join(pki, f), "wb").close()
        pkgs = {}
        for root, f in files:
            path = os.path.join(root, f)
            m = re.search(r"^//verif:dir (\S+)", open(path).read(), re.M)
            sub = m.group(1)
            shutil.copy(path, os.path.join(dst, sub, "zz_verif_" + f))
            pkgs.setdefault(sub, []).append(f)
        e = dict(os.environ)
        e.update(HOME="/root", GOROOT=GOROOT124, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false",
                 GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOWORK="off", CGO_ENABLED="1")
        e.setdefault("GOCACHE", "/root/.cache/go-build")
        e["PATH"] = GOROOT124 + "/bin:" + e.get("PATH", "")
        e["TMPDIR"] = scratch
        out, bad = "", False
        for sub in sorted(pkgs):
            try:
                r = subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "%ds" % budget, "-run", "^TestVerif" + prop, "./" + sub],
                                   cwd=dst, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=budget + 60)
                o = r.stdout
                rc = r.returncode
            except subprocess.TimeoutExpired as ex:
                o, rc = "replay timed out\n", -1
            out += "== %s (exit %d)\n%s\n" % (sub, rc, o[-12000:])
            # only a failed test (or a panic in it) is a failing input; a harness that does not build is not.
            if rc == 1 and ("--- FAIL: TestVerif" in o or re.search(r"^panic:", o, re.M)) and "[build failed]" not in o and "panic: test timed out" not in o:
                bad = True
        return bad, out
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    if sys.argv[1] == "--setup":
        print(engine())
        return
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    eng = engine()
    tmp = tempfile.mkdtemp(prefix="verif-check-")
    try:
        resf = os.path.join(tmp, "r.json")
        t1, t2, limit = ("4s", "20s", 420) if tier == "quick" else ("20s", "120s", 3000)
        cmd = [eng, "-prop", prop, "-contracts", os.path.join(VERIF, "contracts"), "-t1", t1, "-t2", t2, "-j", "4", "-out", resf]
        e = go_env()
        e["VERIF_REPO"] = REPO
        log = ""
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit)
            log, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as ex:
            log, rc = "the verifier did not finish in %d s\n%s" % (limit, (ex.stdout or b"")[-2000:]), -1
        res = json.load(open(resf)) if os.path.exists(resf) else None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    failed = []
    if res is None:
        failed.append(dict(Label=prop + ".subset", Kind="verification-condition generation", Root="-", Pos="-", Status="error", Reason=log[-4000:], Output=""))
    else:
        failed = list(res["Failed"] or [])
        for x in res["Errors"] or []:
            failed.append(dict(Label=prop + ".error", Kind="engine", Root="-", Pos="-", Status="error", Reason=x, Output=""))

    # findings that the committed file lists: the obligation, the function and the call site must match
    unlisted, listed = [], []
    kf = known(prop)
    for f in failed:
        k = next((k for k in kf if k["label"] == f["Label"] and k.get("root", "") in f["Root"]), None)
        (listed if k else unlisted).append((f, k))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for f, _ in listed:
        print("listed: %s in %s" % (f["Label"], f["Root"]))

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    violations = 0
    if unlisted:
        violations = len(unlisted)
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + ".txt")
        budget = 240 if tier == "quick" else 900
        try:
            bad, out = replay(prop, budget)
        except Exception as ex:
            bad, out = None, "replay could not run: %r" % ex
        with open(path, "w") as fh:
            fh.write("property %s\n\n" % prop)
            if bad:
                fh.write("FAILING INPUT: the replay tests of this property fail on the real code (output at the end).\n\n")
            else:
                fh.write("No failing input was found by the replay tests.\n\n")
            for f, _ in unlisted:
                fh.write("FAILED OBLIGATION %s\n  kind: %s\n  function: %s\n  position: %s\n  status: %s %s\n" % (f["Label"], f["Kind"], f["Root"], f.get("Pos", ""), f["Status"], f.get("Reason", "")))
                if f.get("Output"):
                    fh.write("  verifier output (%s):\n%s\n" % (f.get("Solver", ""), f["Output"]))
            fh.write("\nREPLAY\n" + out + "\n")
        for f, _ in unlisted:
            print("failed obligation %s in %s at %s: %s %s" % (f["Label"], f["Root"], f.get("Pos", ""), f["Status"], f.get("Reason", "")[:300]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if bad else " no-failing-input-found"))

    cov = dict(obligations=0, discharged=0, checker_cmd=" ".join([os.path.relpath(eng, VERIF)] + cmd[1:-2]), trusted_base=[])
    assumptions = []
    if res is not None:
        byfn = {}
        for o in res["Obls"] or []:
            a = byfn.setdefault(o["root"], dict(obligations=0, discharged=0, solver_ms=0))
            a["obligations"] += 1
            a["discharged"] += o["status"] == "discharged"
            a["solver_ms"] += o["ms"]
        cov.update(
            obligations=res["Obligations"], discharged=res["Discharged"],
            functions_under_contract=byfn, obligations_by_label=res["LabelCounts"], by_back_end=res["BySolver"],
            solver_ms=res["SolverMS"], load_ms=res["LoadMS"],
            contracts_used_at_calls=res["UsedContracts"], bodies_verified_inline=res["Inlined"],
            effect_models=res["Models"], vacuity_probes=res["Vacuity"], known_findings_listed=len(kf),
            trusted_base=["the engine /verif/engine (Go SSA to SMT)", "golang.org/x/tools/go/ssa", "z3 4.8.12", "z3-new", "cvc5 1.1.2",
                          "the contracts and effect models of library functions in /verif/contracts"],
        )
        assumptions = list(res["Assumptions"] or []) + ["warning: " + x for x in (res["Warnings"] or [])]
    ev = dict(property=prop, tier=tier, seed=seed, level="proof", coverage=cov, assumptions=assumptions[:400],
              wall_s=round(time.time() - t0, 2), violations=violations)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    print("property=%s tier=%s obligations=%d discharged=%d wall=%.1fs" % (prop, tier, cov["obligations"], cov["discharged"], time.time() - t0))
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
