#!/usr/bin/env python3
"""Driver of one property check.

  check.py ID            (environment: VERIF_SEED, VERIF_TIER)
  check.py ID --replay FILE

Steps, on every run, from /repo's current working tree:
 1. vx extracts the functions of the property from /repo and weaves the contracts in
    (units/ID/*.rs are the templates); Verus discharges every obligation.
 2. a vacuity pass: the same file with `assert(false)` at the head of every contracted
    function must fail in every one of them.
 3. the harness crate (path dependency on /repo) runs the real compiled code against the
    executable reading of the contracts: replay of counterexamples, and the bounded
    stand-in for code that is outside the verifier's reach.
 4. Kani proofs of the unit, when it has any.
Decision: see DESIGN.md, "Verdicts".
"""
import json, os, re, subprocess, sys, time, hashlib, shutil, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
VERUS = shutil.which("verus") or "/opt/veriftools/verus/verus"
T0 = time.time()
DEADLINE = T0 + (820 if TIER == "quick" else 3300)

def env_repo():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_AUTO_INSTALL="0", CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    return e

def run(cmd, timeout, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, timeout=max(5, timeout), env=env, cwd=cwd, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as t:
        o = t.stdout.decode(errors="replace") if isinstance(t.stdout, bytes) else (t.stdout or "")
        s = t.stderr.decode(errors="replace") if isinstance(t.stderr, bytes) else (t.stderr or "")
        return 124, o, s + "\nTIMEOUT"

def left():
    return DEADLINE - time.time()

# ---------------------------------------------------------------- extraction + Verus
def build_vx():
    e = env_repo(); e.pop("RUSTUP_TOOLCHAIN", None)
    rc, o, s = run(["cargo", "build", "--offline", "--release", "-q", "--locked", "--manifest-path", f"{VERIF}/vx/Cargo.toml",
                    "--target-dir", f"{BUILD}/vx"], 300, env=e, cwd=f"{VERIF}/vx")
    return rc == 0, s

def strip_comments(t):
    return re.sub(r"//[^\n]*", "", t)

CHEATS = ["assume(", "admit(", "external_body", "assume_specification", "external_type_specification",
          "axiom fn", "uninterp spec fn", "external_trait", "#[verifier::external", "exec_allows_no_decreases"]

def scan_cheats(text):
    out = {}
    t = strip_comments(text)
    for c in CHEATS:
        n = t.count(c)
        if n: out[c.rstrip("(")] = n
    return out

def count_asserts(logdir):
    """obligations = assert nodes in the Function-Def queries of Verus's AIR log"""
    per = {}
    for f in glob.glob(f"{logdir}/**/*.air", recursive=True):
        cur = None
        for line in open(f, errors="replace"):
            if line.startswith(";; Function-") or line.startswith(";; "):
                m = re.match(r";; Function-(?:Def|Termination|Decl-Check\w*|Checks?) (\S+)", line)
                if m: cur = m.group(1)
                elif line.startswith(";; Function-") or line.startswith(";; Query"): cur = None
            if cur and re.match(r"\s*\(assert\b", line) :
                per[cur] = per.get(cur, 0) + 1
    return per

def run_verus(src, rlimit, timeout, logdir=None, extra=()):
    cmd = [VERUS, src, "--output-json", "--time", "--error-format=json", "--rlimit", str(rlimit), "--multiple-errors", "6", *extra]
    if logdir:
        shutil.rmtree(logdir, ignore_errors=True)
        cmd += ["--log-dir", logdir, "--log", "air"]
    e = env_repo(); e.pop("RUSTUP_TOOLCHAIN", None)
    t = time.time()
    rc, o, s = run(cmd, timeout, env=e, cwd=os.path.dirname(src))
    wall = time.time() - t
    res = {"rc": rc, "wall_s": round(wall, 2), "errors": [], "verified": 0, "n_errors": 0, "smt_ms": None, "raw": s}
    try:
        j = json.loads(o[o.index("{"):])
        vr = j.get("verification-results", {})
        res["verified"] = vr.get("verified", 0); res["n_errors"] = vr.get("errors", 0)
        res["vir_ok"] = not vr.get("encountered-vir-error", False)
        t = j.get("times-ms", {})
        res["smt_ms"] = (t.get("smt") or {}).get("total") if isinstance(t.get("smt"), dict) else t.get("smt")
        res["version"] = j.get("verus", {}).get("version")
    except Exception:
        res["vir_ok"] = False
    for line in s.splitlines():
        if line.startswith("{"):
            try: d = json.loads(line)
            except Exception: continue
            if d.get("level") == "error" and d.get("spans"):
                sp = d["spans"]
                res["errors"].append({"msg": d["message"], "lines": sorted({x["line_start"] for x in sp}),
                                      "primary": [x["line_start"] for x in sp if x["is_primary"]],
                                      "labels": [x.get("label") for x in sp], "rendered": d.get("rendered", "")})
            elif d.get("level") == "error":
                if not d["message"].startswith("aborting"):
                    res["errors"].append({"msg": d["message"], "lines": [], "primary": [], "labels": [], "rendered": d.get("rendered", "")})
    return res

GENUINE = ("postcondition not satisfied", "precondition not satisfied", "possible arithmetic underflow/overflow",
           "invariant not satisfied", "assertion failed", "possible division by zero", "decreases not satisfied",
           "could not prove termination", "recommendation not met", "loop ensures not satisfied", "unable to prove", "index out of bounds",
           "constructed value may fail to meet its declared type invariant", "closure")

def verify_unit(pid, tmpl, quick):
    """returns dict(status=ok|failed|undecided, ...)"""
    name = os.path.splitext(os.path.basename(tmpl))[0]
    d = f"{BUILD}/{pid}"; os.makedirs(d, exist_ok=True)
    out, meta = f"{d}/{name}.rs", f"{d}/{name}.json"
    r = {"unit": name, "template": os.path.relpath(tmpl, VERIF), "status": "undecided", "reasons": [], "failed": []}
    rc, o, s = run([f"{BUILD}/vx/release/vx", tmpl, REPO, out, meta], 60)
    if rc != 0:
        r["reasons"].append("extraction: " + s.strip()[-1500:]); return r
    items = json.load(open(meta))["items"]
    r["items"] = items
    r["extracted_fns"] = [f'{i["file"]}:{i["lines"][0]}-{i["lines"][1]} {i["what"]}' for i in items if i["is_fn"]]
    r["contracted"] = [i["what"] for i in items if i["has_contract"]]
    r["uncontracted"] = [i["what"] for i in items if i["is_fn"] and not i["has_contract"]]
    r["extraction_edits"] = sorted({n for i in items for n in i["notes"]})
    text = open(out).read()
    r["unchecked"] = scan_cheats(text)
    # structure fingerprints against the committed ones
    base_f = os.path.splitext(tmpl)[0] + ".base.json"
    base = json.load(open(base_f)) if os.path.exists(base_f) else {}
    r["fp"] = {f'{i["file"]}|{i["what"]}': i["struct_fp"] for i in items if i["is_fn"]}
    r["restructured"] = sorted(k for k, v in r["fp"].items() if base.get(k) != v)
    mrl = re.search(r"//@-- rlimit (\d+)", text + open(tmpl).read())
    rl = int(mrl.group(1)) if mrl else 30
    v = run_verus(out, rl, min(left(), 400), logdir=f"{d}/log-{name}")
    r["verus"] = {k: v[k] for k in ("rc", "wall_s", "verified", "n_errors", "smt_ms")}
    r["verus_version"] = v.get("version")
    per = count_asserts(f"{d}/log-{name}")
    r["obligations"] = sum(per.values()); r["per_fn_obligations"] = per
    if v["rc"] == 0 and v["n_errors"] == 0 and v["verified"] > 0 and r["obligations"] > 0:
        r["status"] = "ok"; r["discharged"] = r["obligations"]
    else:
        def owner(e):
            # the failing function: prefer a function of /repo, else a named spec/proof
            for ln in e["lines"]:
                for i in items:
                    if i["gen_start"] <= ln <= i["gen_end"]: return i
            return None
        hard = []
        for e in v["errors"]:
            it = owner(e)
            if it is None: 
                nm = "unit lemma"
                ln = (e["lines"] or [0])[0]
                for k in range(min(ln, len(text.splitlines())) - 1, -1, -1):
                    m = re.search(r"\bfn (\w+)", text.splitlines()[k])
                    if m: nm = m.group(1); break
                what, key = nm, None
            else:
                what, key = it["what"], f'{it["file"]}|{it["what"]}'
            rec = {"function": what, "key": key, "msg": e["msg"], "rendered": e["rendered"][-1800:]}
            if any(g in e["msg"] for g in GENUINE) and "resource limit" not in e["msg"].lower():
                r["failed"].append(rec)
            else:
                hard.append(rec)
        if v["rc"] == 124: r["reasons"].append("verus: time limit")
        for h in hard: r["reasons"].append(f'verus: {h["msg"]} in {h["function"]}')
        if r["failed"] and not hard and v["rc"] != 124:
            r["status"] = "failed"
            bad = {f["key"] or f["function"] for f in r["failed"]}
            r["discharged"] = r["obligations"] - len(r["failed"])
        elif not r["reasons"]:
            r["reasons"].append("verus: no result: " + v["raw"][-800:])
        r["verus_output"] = "\n".join(e["rendered"] for e in v["errors"])[-20000:]
        return r
    # vacuity: assert(false) at the head of each extracted function must fail in each
    rc, o, s = run([f"{BUILD}/vx/release/vx", tmpl, REPO, f"{d}/{name}_vac.rs", f"{d}/{name}_vac.json", "--vacuity"], 60)
    if rc == 0:
        vi = json.load(open(f"{d}/{name}_vac.json"))["items"]
        vv = run_verus(f"{d}/{name}_vac.rs", rl, min(left(), 300), extra=("--no-auto-recommends-check",))
        lines = {ln for e in vv["errors"] if e["msg"].startswith("assertion failed") for ln in e["lines"]}
        want = [i for i in vi if i["is_fn"]]
        reach = [i for i in want if any(i["gen_start"] <= l <= i["gen_end"] for l in lines)]
        r["vacuity"] = {"functions": len(want), "reachable": len(reach),
                        "vacuous": [i["what"] for i in want if i not in reach]}
        if len(want) != len(reach):
            r["status"] = "undecided"; r["reasons"].append(f'vacuous precondition: {r["vacuity"]["vacuous"]}')
    else:
        r["status"] = "undecided"; r["reasons"].append("vacuity extraction failed")
    return r

# ---------------------------------------------------------------- harness
def build_harness(binname):
    e = env_repo(); e["RUSTUP_TOOLCHAIN"] = "1.97.1"; e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    lock = f"{VERIF}/harness/Cargo.lock"
    keep = open(lock).read()
    cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", f"{VERIF}/harness/Cargo.toml",
           "--target-dir", f"{BUILD}/harness", "--bin", binname]
    if "e2e" in open(f"{VERIF}/harness/src/bin/{binname}.rs").read(): cmd += ["--bin", "router"]
    rc, o, s = run(cmd, min(left() - 60, 760), env=e, cwd=f"{VERIF}/harness")
    if open(lock).read() != keep: open(lock, "w").write(keep)
    return rc, s

def run_harness(pid, replay=None):
    binname = pid.lower()
    if not os.path.exists(f"{VERIF}/harness/src/bin/{binname}.rs"):
        return {"status": "none"}
    t = time.time()
    rc, s = build_harness(binname)
    bt = time.time() - t
    if rc != 0:
        return {"status": "undecided", "reason": "harness does not build against the current tree: " + s[-2500:], "build_s": round(bt, 1)}
    out = f"{BUILD}/{pid}-harness.json"
    if os.path.exists(out): os.remove(out)
    cmd = [f"{BUILD}/harness/debug/{binname}", "--seed", str(SEED), "--tier", TIER, "--out", out,
           "--budget", str(int(min(60 if TIER == "quick" else 900, max(10, left() - 40))))]
    if replay: cmd += ["--replay", replay]
    e = env_repo(); e["RUST_MIN_STACK"] = "67108864"; e["NO_COLOR"] = "1"
    rc, o, s = run(cmd, min(left() - 10, 200 if TIER == "quick" else 1500), env=e)
    res = {"build_s": round(bt, 1), "rc": rc}
    if os.path.exists(out):
        try:
            res.update(json.load(open(out)))
        except Exception as ex:
            res["parse"] = str(ex)
    if res.get("failures"):
        res["status"] = "violation"
    elif rc == 0 and "evaluations" in res:
        res["status"] = "ok"
    elif rc in (134, 139, -6, -11):
        # the real code aborted or overflowed its stack on a generated input
        res["status"] = "violation"
        res["failures"] = [{"key": f"abort:{rc}", "input": res.get("last_input", "see stderr"), "expected": "no abort",
                            "got": f"process ended with {rc}: {s[-600:]}"}]
    else:
        res["status"] = "undecided"; res["reason"] = f"harness rc={rc}: {s[-1500:]}"
    return res

# ---------------------------------------------------------------- main
def known(pid):
    f = f"{VERIF}/known_findings.jsonl"
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known": out.append(d)
    return out

def main():
    pid = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        h = run_harness(pid, replay=sys.argv[3])
        print(json.dumps(h, indent=1)[:6000]); sys.exit(1 if h["status"] == "violation" else 0)
    os.makedirs(BUILD, exist_ok=True); os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    conf_f = f"{VERIF}/units/{pid}/conf.json"
    conf = json.load(open(conf_f)) if os.path.exists(conf_f) else {}
    units, notes = [], []
    ok, s = build_vx()
    tmpls = sorted(t for t in glob.glob(f"{VERIF}/units/{pid}/*.rs"))
    if tmpls and not ok:
        notes.append("vx does not build: " + s[-800:])
    elif tmpls:
        for t in tmpls: units.append(verify_unit(pid, t, TIER == "quick"))
    if "--write-base" in sys.argv:
        for u, t in zip(units, tmpls):
            if "fp" in u: json.dump(u["fp"], open(os.path.splitext(t)[0] + ".base.json", "w"), indent=1, sort_keys=True)
    h = run_harness(pid)
    wall = time.time() - T0
    proved = bool(units) and all(u["status"] == "ok" for u in units) and not notes
    failed = [u for u in units if u["status"] == "failed"]
    undec = [u for u in units if u["status"] == "undecided"]
    kn = known(pid); viol = []; knownhits = []
    for f in h.get("failures") or []:
        k = next((x for x in kn if x.get("key") == f.get("key")), None)
        (knownhits if k else viol).append(f)
    for k in knownhits:
        print(f'KNOWN-FINDING: property={pid} {k["key"]}')
    rdir = f"{BUILD}/replay"; os.makedirs(rdir, exist_ok=True)
    verdict = None; tailwords = ""
    replay = f"{rdir}/{pid}.json"
    if viol:
        json.dump({"property": pid, "kind": "failing-input", "failures": viol[:20],
                   "failed_obligations": [x for u in failed for x in u["failed"]],
                   "replay_cmd": f"python3 {VERIF}/bin/check.py {pid} --replay {replay}"}, open(replay, "w"), indent=1)
        verdict = "violation"
    else:
        # an obligation that the unchanged tree discharges fails now, in a function whose shape the
        # annotations still fit; no failing input found by the harness
        real = []
        for u in failed:
            for f in u["failed"]:
                if f["key"] is None or f["key"] in u["restructured"]: continue
                if any(b for b in u["restructured"]): continue
                real.append(f)
        if real:
            json.dump({"property": pid, "kind": "failed-obligation", "no_failing_input_found": True, "obligations": real,
                       "verifier_output": [u.get("verus_output", "") for u in failed]}, open(replay, "w"), indent=1)
            verdict = "violation"; tailwords = " no-failing-input-found"
    level = "proof" if proved else "exploration"
    cov = {}
    if units:
        cov.update(obligations=sum(u.get("obligations", 0) for u in units),
                   discharged=sum(u.get("discharged", 0) for u in units),
                   checker_cmd=f"verus {{unit}} --rlimit R (generated from /repo by vx; units under {VERIF}/units/{pid})",
                   backend="Verus " + str(next((u.get("verus_version") for u in units if u.get("verus_version")), "?")) + " / Z3",
                   smt_ms=sum((u.get("verus", {}).get("smt_ms") or 0) for u in units),
                   verus_wall_s=sum((u.get("verus", {}).get("wall_s") or 0) for u in units),
                   functions_under_contract=[f for u in units for f in u.get("extracted_fns", [])],
                   functions_extracted_without_contract=[f for u in units for f in u.get("uncontracted", [])],
                   extraction_edits=sorted({n for u in units for n in u.get("extraction_edits", [])}),
                   vacuity=[u.get("vacuity") for u in units],
                   unchecked_markers={u["unit"]: u.get("unchecked", {}) for u in units},
                   units=[{k: u.get(k) for k in ("unit", "status", "reasons", "obligations", "discharged", "restructured")} for u in units],
                   trusted_base=conf.get("trusted", []) + ["Verus, Z3, rustc front end", "vx extraction (edits listed in extraction_edits)"])
    hb = {k: h.get(k) for k in ("status", "reason", "evaluations", "distinct_nontrivial", "rule", "samples", "exhaustive", "build_s", "groups") if h.get(k) is not None}
    if h["status"] != "none":
        cov["bounded"] = {"label": "bounded: real compiled code against the executable reading of the contract; never counted as proved", **hb}
        for k in ("evaluations", "distinct_nontrivial", "rule", "samples"):
            if h.get(k) is not None: cov[k] = h[k]
    cov["explanation"] = conf.get("explanation", "") + ("" if proved or not units else
        " NOT PROVED ON THIS RUN: " + "; ".join(r for u in undec for r in u["reasons"])[:1500] +
        "; ".join(f'{x["function"]}: {x["msg"]}' for u in failed for x in u["failed"])[:1500])
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": conf.get("assumptions", []) + notes, "wall_s": round(time.time() - T0, 1),
          "violations": (len(viol) or 1) if verdict else 0}
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    for u in units:
        print(f'{pid} unit {u["unit"]}: {u["status"]} obligations={u.get("obligations")} discharged={u.get("discharged")} '
              f'verus={u.get("verus")} restructured={len(u.get("restructured", []))}')
        for x in u["reasons"]: print("   undecided:", x[:600])
        for x in u["failed"]: print(f'   failed obligation: {x["function"]}: {x["msg"]}')
    print(f'{pid} harness: {h["status"]} evaluations={h.get("evaluations")} distinct={h.get("distinct_nontrivial")} build_s={h.get("build_s")} {(h.get("reason") or "")[:1500]}')
    for f in viol[:3]: print("   failing input:", json.dumps(f)[:1200])
    if "-v" in sys.argv:
        for u in units: print(u.get("verus_output", ""))
    if verdict:
        print(f"VIOLATION property={pid} replay={replay}{tailwords}"); sys.exit(1)
    if not proved and h["status"] != "ok" and not knownhits:
        print(f"{pid}: undecided"); sys.exit(2)
    sys.exit(0)

main()
