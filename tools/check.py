#!/usr/bin/env python3
"""check.py PROP: decides one property on /repo's current tree.

1. extracts the functions under contract from /repo/src (extract/, contracts/*.vt) and has Verus discharge their
   obligations, layer by layer; a copy with assert(false) at every exit guards against vacuous contracts;
2. runs the bounded stand-in (harness/) for what the contracts leave out (trusted functions, layers below them),
   and to replay a failed obligation on the real code.

exit 0: held; exit 1 and a VIOLATION line: broken."""
import json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, LAYERS, TRUSTED

T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def env():
    e = dict(os.environ)
    e["PATH"] = os.path.expanduser("~/.cargo/bin") + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["RUST_BACKTRACE"] = "1"
    e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    e["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
    return e


def run(cmd, cwd=V, timeout=600, extra=None):
    e = env()
    e.update(extra or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        o = x.stdout or ""
        return 124, o if isinstance(o, str) else o.decode(errors="replace"), "timeout"


def cargo(crate, target, feats=()):
    d = os.path.join(V, crate)
    cmd = ["cargo", "build", "--offline", "-q"]
    for f in feats:
        cmd += ["--features", f]
    return run(cmd, cwd=d, timeout=400, extra={"CARGO_TARGET_DIR": os.path.join(d, target)})


# ------------------------------------------------------------------------------------------------ proof
def verus(layer, work, vac=False, args=()):
    out = os.path.join(work, layer + ("_vac" if vac else "") + ".rs")
    name = os.path.basename(out)[:-3]
    rep = out[:-3] + ".json"
    cmd = [os.path.join(V, "extract/target/debug/vx"), "--src", os.path.join(REPO, "src"), "--contracts", os.path.join(V, "contracts"),
           "--tmpl", layer + ".vt", "--out", out, "--report", rep]
    if vac:
        cmd.append("--vacuity")
    rc, so, se = run(cmd, timeout=60)
    res = {"layer": layer, "ok": False, "why": None, "report": None, "fns": {}, "log": "", "rc": rc, "text": out}
    if os.path.exists(rep):
        res["report"] = json.load(open(rep))
    if rc != 0:
        res["why"] = "extraction: " + (so.strip() or se.strip())[:500]
        return res
    vcmd = ["verus", out, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--rlimit", str(LAYERS[layer].get("rlimit", 30)), "--multiple-errors", "4"] + list(args)
    t = time.time()
    rc, so, se = run(vcmd, cwd=work, timeout=LAYERS[layer].get("timeout", 300))
    res["wall"] = time.time() - t
    res["cmd"] = " ".join(vcmd)
    res["log"] = se
    try:
        d = json.loads(so[so.index("{"):])
    except (ValueError, IndexError):
        res["why"] = "verus gave no result (rc %d): %s" % (rc, first_error(se))
        return res
    vr = d.get("verification-results", {})
    mt = d.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", [])
    if vr.get("encountered-vir-error") or not mt or (not vr.get("success") and not vr.get("errors")):
        res["why"] = "verus rejects the extracted text: " + first_error(se)
        return res
    for m in mt:
        for f in m.get("function-breakdown", []):
            n = f["function"].split("::", 1)[1]
            prev = res["fns"].get(n, {"ok": True, "ms": 0.0})
            prev["ok"] = prev["ok"] and f["success"]
            prev["ms"] += f.get("time-micros", 0) / 1000
            res["fns"][n] = prev
    res["smt_ms"] = d["times-ms"]["smt"].get("total", 0)
    res["errors"] = parse_errors(se, out)
    res["ok"] = True
    return res


def first_error(se):
    m = re.search(r"error[^\n]*\n[^\n]*", se)
    return (m.group(0) if m else se.strip()[:300]).replace("\n", " ")[:400]


def tags_of(block):
    """the properties a clause of a contract is about: `// [C09 C19]` at the end of its line; untagged: all that use the function"""
    out = set()
    for m in re.finditer(r"^ *\d+ [|].*// \[((?:C\d\d ?)+)\]", block, re.M):
        out.update(m.group(1).split())
    return sorted(out)


def concerns(e, prop, P):
    return prop in e["tags"] or (not e["tags"] and not P.get("only_tagged"))


def parse_errors(se, path):
    """the failed obligations: [(function, message, line text, related lines, block)]"""
    src = open(path).read().split("\n")
    base = os.path.basename(path)
    out = []
    for b in se.split("\n\n"):
        b = b.lstrip("\n")
        if not b.startswith("error"):
            continue
        head = b.split("\n")[0]
        m = re.search(r"--> (?:\S*/)?" + re.escape(base) + r":(\d+)", b)
        if not m:
            continue
        n = int(m.group(1))
        k = n
        while k > 0 and not re.search(r"\bfn \w+", src[k - 1]):
            k -= 1
        fn = re.search(r"fn (\w+)", src[k - 1]).group(1) if k else "?"
        out.append({"fn": fn, "msg": head, "text": src[n - 1].strip()[:200], "block": b, "tags": tags_of(b), "soft": "rlimit" in head or "timed out" in b or "Resource limit" in b})
    return out


def relevant(name, pats):
    return any(re.fullmatch(p, name) for p in pats)


def matches_annotations(f):
    """do the loop annotations and anchors still belong to this function?"""
    return len(f["loops"]) == f["loops_expected"] and not f["lost"]


# ------------------------------------------------------------------------------------------------ bounded stand-in
def harness(prop, secs, seed, wb, out):
    b = os.path.join(V, "harness", "target-wb" if wb else "target", "debug", "candy-harness")
    rc, so, se = run([b, "run", prop, "--seed", str(seed), "--secs", str(secs), "--out", out, "--workers", "8"], timeout=secs * 3 + 240)
    try:
        return rc, json.loads(so.strip().split("\n")[-1])
    except (ValueError, IndexError):
        return rc, {"error": (se or so)[-600:]}


def main():
    prop = sys.argv[1]
    P = PROPS[prop]
    work = os.path.join(V, "build", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    evd = os.path.join(V, "evidence")
    os.makedirs(evd, exist_ok=True)
    notes = []
    obligations = []  # (layer, function, ok, ms)
    undecided = []  # (layer, function, reason)
    failed = []  # error records
    checker = []
    assumed = []
    vac_ok = True
    fns_under_contract = []
    smt_ms = 0

    with cf.ThreadPoolExecutor(8) as ex:
        bx = ex.submit(cargo, "extract", "target") if P["layers"] else None
        bh = ex.submit(cargo, "harness", "target")
        bw = ex.submit(cargo, "harness", "target-wb", ("wb",)) if P.get("wb") else None
        jobs, vjobs = {}, {}
        if bx:
            rc, so, se = bx.result()
            if rc != 0:
                notes.append("the extractor does not build: " + se[-300:])
            else:
                for l in P["layers"]:
                    jobs[l] = ex.submit(verus, l, work)
                    vjobs[l] = ex.submit(verus, l, work, True)
        hb = bh.result()
        wbr = bw.result() if bw else None
        results = {l: j.result() for l, j in jobs.items()}
        vresults = {l: j.result() for l, j in vjobs.items()}

    for l, pats in P["layers"].items():
        r = results.get(l)
        if r is None:
            undecided.append((l, "*", "no extractor"))
            continue
        if not r["ok"]:
            undecided.append((l, "*", r["why"]))
            continue
        checker.append("verus %s.rs (extracted by vx from %s/src with contracts/%s.vt)" % (l, REPO, l))
        rep = r["report"]
        smt_ms += r["smt_ms"]
        und = {u["name"]: u["reason"] for u in rep["undecided"]}
        byname = {}
        for f in rep["functions"]:
            byname[f["name"]] = f
            if f["assumed"]:
                if f["name"] in und:
                    if relevant(f["name"], pats):
                        undecided.append((l, f["name"], und[f["name"]]))
                else:
                    assumed.append("%s: contract of %s (%s) assumed here, see %s" % (l, f["name"], f["file"], LAYERS[l].get("proved_in", {}).get(f["name"].split("::")[-1], "trusted")))
        v = vresults[l]
        vfns = v["fns"] if v["ok"] else {}
        srcfns = {re.sub(r"/closure\d+$", "", n): f for n, f in byname.items() if not f["assumed"]}
        errs_by_fn = {}
        for e in r["errors"]:
            errs_by_fn.setdefault(e["fn"], []).append(e)
        for n, st in sorted(r["fns"].items()):
            last = n.split("::")[-1]
            f = byname.get(n) or next((x for k, x in byname.items() if k.split("::")[-1] == last and not x["assumed"]), None)
            if f is not None and not relevant(f["name"], pats):
                continue
            if f is None and LAYERS[l].get("lemmas_only") and not relevant(n, pats):
                continue
            ok = st["ok"]
            if not ok:
                es = errs_by_fn.get(last, [])
                if f is not None and not matches_annotations(f):
                    undecided.append((l, n, "the loop annotations or anchors no longer match the code: loops %s, lost %s" % (f["loops"], f["lost"])))
                    continue
                if es and all(e["soft"] for e in es):
                    undecided.append((l, n, "resource limit"))
                    continue
                mine = [e for e in es if concerns(e, prop, P)]
                if es and not mine:
                    notes.append("%s %s: fails an obligation of %s only" % (l, n, " ".join(sorted({t for e in es for t in e["tags"]})) or "another property"))
                    obligations.append((l, n, True, st["ms"]))
                    fns_under_contract.append("%s::%s" % (f["file"] if f else "contracts", n))
                    continue
                es = mine or es
                failed.append({"layer": l, "fn": n, "file": f["file"] if f else "contracts", "errors": es, "log": r["log"], "text": r["text"]})
            obligations.append((l, n, ok, st["ms"]))
            if f is not None and not f["assumed"]:
                fns_under_contract.append("%s::%s" % (f["file"], n) + (" (with %s inlined)" % ", ".join(f["inlined"]) if f["inlined"] else ""))
                if ok and v["ok"] and vfns.get(n, {"ok": False})["ok"]:
                    vac_ok = False
                    undecided.append((l, n, "vacuous: assert(false) is provable at every exit"))

    # ---- bounded stand-in
    secs = P["secs"] if TIER == "quick" else P["secs"] * 8
    if undecided and TIER == "quick":
        secs = int(secs * 1.5)
    if failed:
        secs = max(secs, 40)
    if P["level"] == "exploration":
        secs = max(secs, P["secs"])
    violation = None
    hres, wres = {}, {}
    if hb[0] != 0:
        notes.append("the harness does not build against this tree: " + hb[2][-400:])
    else:
        rc, hres = harness(prop, secs, SEED, False, os.path.join(work, "h"))
        if hres.get("violation"):
            violation = hres["violation"]
    if not violation and wbr is not None:
        if wbr[0] != 0:
            notes.append("the white-box harness does not build against this tree: " + wbr[2][-300:])
        else:
            rc, wres = harness(prop, max(5, secs // 2), SEED, True, os.path.join(work, "w"))
            if wres.get("violation"):
                violation = dict(wres["violation"], wb=True)
    if "error" in hres or "error" in wres:
        notes.append("harness: " + str(hres.get("error") or wres.get("error")))

    # ---- verdict
    lines = []
    for k in (hres.get("known") or []) + (wres.get("known") or []):
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, k))
    code = 0
    if violation:
        rp = os.path.join(evd, prop + ".replay")
        src = violation.get("replay")
        if src and os.path.exists(src):
            shutil.copy(src, rp)
        with open(rp, "a") as f:
            f.write("\n# %s\n# replay with: %s/debug/candy-harness replay FILE (built from /verif/harness)\n" % (violation.get("message", "").replace("\n", " "), "target-wb" if violation.get("wb") else "target"))
            for x in failed:
                f.write("# failed obligation: %s %s: %s\n" % (x["layer"], x["fn"], "; ".join(e["msg"] + " | " + e["text"] for e in x["errors"])))
        print("property %s: %s" % (prop, violation.get("message")))
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
        code = 1
    elif failed:
        rp = os.path.join(evd, prop + ".replay")
        with open(rp, "w") as f:
            for x in failed:
                f.write("failed obligation in %s (%s), layer %s\n" % (x["fn"], x["file"], x["layer"]))
                for e in x["errors"]:
                    f.write(e["block"] + "\n\n")
                if not x["errors"]:
                    f.write(x["log"][-4000:] + "\n")
        for x in failed:
            print("obligation failed: %s %s: %s" % (x["layer"], x["fn"], "; ".join(e["msg"] + " | " + e["text"] for e in x["errors"][:3])))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        code = 1

    ndis = sum(1 for o in obligations if o[2])
    level = P["level"]
    evals = int(hres.get("evaluations", 0)) + int(wres.get("evaluations", 0))
    cov = {}
    if level == "proof":
        cov.update({
            "obligations": len(obligations) + len(undecided), "discharged": ndis,
            "checker_cmd": "; ".join(checker) or "verus", "trusted_base": TRUSTED + P.get("trusted", []) + sorted(set(assumed)),
            "functions_under_contract": fns_under_contract, "solver_ms": round(smt_ms),
            "slowest_ms": {("%s/%s" % (o[0], o[1])): round(o[3]) for o in sorted(obligations, key=lambda o: -o[3])[:5]},
            "backend": "verus 0.2026.09.13 / z3", "vacuity_checked": vac_ok,
            "undecided": ["%s %s: %s" % u for u in undecided],
            "bounded_stand_in": {"evaluations": evals, "distinct_nontrivial": int(hres.get("distinct_nontrivial", 0)) + int(wres.get("distinct_nontrivial", 0)),
                                 "rule": hres.get("rule", ""), "samples": (hres.get("samples") or [])[:3], "covers": P.get("bounded", "")},
        })
    else:
        cov.update({"evaluations": evals, "distinct_nontrivial": int(hres.get("distinct_nontrivial", 0)) + int(wres.get("distinct_nontrivial", 0)),
                    "rule": hres.get("rule", ""), "samples": (hres.get("samples") or []) + (wres.get("samples") or [])[:3],
                    "obligations": len(obligations) + len(undecided), "discharged": ndis, "functions_under_contract": fns_under_contract,
                    "undecided": ["%s %s: %s" % u for u in undecided], "solver_ms": round(smt_ms)})
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": P.get("assumptions", []) + notes,
          "wall_s": round(time.time() - T0, 1), "violations": 1 if code else 0}
    json.dump(ev, open(os.path.join(evd, prop + ".json"), "w"), indent=1)
    print("%s: %d of %d obligations discharged, %d undecided, %d bounded evaluations, %.0f s" % (prop, ndis, len(obligations) + len(undecided), len(undecided), evals, time.time() - T0))
    for u in undecided:
        print("undecided: %s %s: %s" % u)
    for n in notes:
        print("note: " + n)
    for l in lines:
        print(l)
    shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def entry():
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:  # a check must answer
        import traceback
        traceback.print_exc()
        prop = sys.argv[1]
        try:
            json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": "other", "coverage": {"explanation": "internal error: %r" % e}, "wall_s": round(time.time() - T0, 1)},
                      open(os.path.join(V, "evidence", prop + ".json"), "w"))
        except OSError:
            pass
        sys.exit(3)


entry()
