#!/usr/bin/env python3
"""Check driver.

    check.py PROPERTY [--tier quick|thorough]     decide one property on /repo's current working tree
    check.py --setup                              build the extractor and the harness
    check.py --rebaseline                         record the shape of the extracted text (maintenance, on a tree where everything verifies)

A property is decided by the Verus obligations generated from the functions of /repo's current source (units of verus/); the
harness searches for failing inputs of the real code (replay of what the verifier rejects) and is the bounded stand-in of the
functions which are out of reach of the verifier.  See DESIGN.md.
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.environ.get("VX_BUILD", os.path.join(ROOT, "build"))
EVID = os.environ.get("VX_EVID", os.path.join(ROOT, "evidence"))
sys.path.insert(0, ROOT)
from props import PROPS, UNIT_TRUST  # noqa: E402

NFI = "no-failing-input-found"


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd, start_new_session=True)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return -9, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace") + "\nTIMEOUT"


def source_hash():
    h = hashlib.sha256()
    base = os.path.join(REPO, "src")
    for d, ds, fs in os.walk(base):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, base).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    for d, ds, fs in os.walk(os.path.join(ROOT, "harness", "src", "h")):
        for f in sorted(fs):
            with open(os.path.join(d, f), "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:32]


# ------------------------------------------------------------------ builds
def build_vx():
    exe = os.path.join(BUILD, "vx", "release", "vx")
    rc, o, e = sh(["cargo", "build", "--offline", "--release", "--manifest-path", os.path.join(ROOT, "vx", "Cargo.toml")], 600,
                  {"CARGO_TARGET_DIR": os.path.join(BUILD, "vx")})
    if rc != 0 or not os.path.exists(exe):
        raise RuntimeError("extractor does not build: " + e[-2000:])
    return exe


def prepare_harness():
    """crate root = /repo/src/main.rs with its main renamed, plus the harness modules; everything else is /repo's source itself"""
    d = os.path.join(BUILD, "hsrc")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    for f in ("Cargo.toml", "Cargo.lock"):
        copy_if(os.path.join(ROOT, "harness", f), os.path.join(d, f))
    want = {"h": os.path.join(ROOT, "harness", "src", "h")}
    for f in os.listdir(os.path.join(REPO, "src")):
        if f != "main.rs":
            want[f] = os.path.join(REPO, "src", f)
    for f in os.listdir(os.path.join(d, "src")):
        p = os.path.join(d, "src", f)
        if f != "main.rs" and (f not in want or not os.path.islink(p) or os.readlink(p) != want[f]):
            os.unlink(p)
    for f, t in want.items():
        p = os.path.join(d, "src", f)
        if not os.path.islink(p):
            os.symlink(t, p)
    m = open(os.path.join(REPO, "src", "main.rs")).read()
    m = re.sub(r"\bfn\s+main\s*\(", "fn vx_repo_main(", m)
    m = "#![allow(warnings)]\n" + m + open(os.path.join(ROOT, "harness", "src", "tail.rs")).read()
    p = os.path.join(d, "src", "main.rs")
    if not os.path.exists(p) or open(p).read() != m:
        open(p, "w").write(m)
    return d


def copy_if(a, b):
    t = open(a).read()
    if not os.path.exists(b) or open(b).read() != t:
        open(b, "w").write(t)


def build_harness(prop=None):
    d = prepare_harness()
    h = source_hash()
    exe = os.path.join(BUILD, "harness", "release", "hb_harness")
    base = ["cargo", "build", "--offline", "--release", "--manifest-path", os.path.join(d, "Cargo.toml")]
    attempts = [[]]
    if prop:
        attempts.append(["--no-default-features", "--features", PROPS[prop].get("feature", prop.lower())])
    err = ""
    for a in attempts:
        if os.path.exists(exe):
            os.unlink(exe)
        rc, o, e = sh(base + a, 700, {"CARGO_TARGET_DIR": os.path.join(BUILD, "harness"), "VX_SOURCE_HASH": h})
        if rc == 0 and os.path.exists(exe):
            rc, o, e = sh([exe], 60)
            if o.strip() == h:
                return exe, ""
            err = "stale binary"
        else:
            err = "\n".join(l for l in e.splitlines() if l.startswith("error") or "-->" in l)[:3000] or e[-2000:]
    return None, err


# ------------------------------------------------------------------ deductive part
ERR = re.compile(r"^error(\[[A-Z0-9]+\])?: (.*)$")
LOC = re.compile(r"^\s*-->\s*(\S+?):(\d+):(\d+)")
VERIF_ERR = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "assertion not satisfied", "invariant not satisfied",
             "possible arithmetic underflow/overflow", "decreases not satisfied", "possible division by zero", "unreachable", "could not prove termination",
             "constructed value may fail to meet its declared type invariant", "split assertion failure", "requires not satisfied", "cannot show")


def parse_errors(err):
    """[(kind, message, line, text)] with kind in verif / rlimit / other"""
    out, cur = [], None
    for l in err.splitlines():
        m = ERR.match(l)
        if m:
            cur = {"code": m.group(1), "msg": m.group(2), "line": None, "lines": [], "text": [l]}
            out.append(cur)
            continue
        if l.startswith("warning") or l.startswith("note:"):
            cur = None if l.startswith("warning") else cur
        if cur is not None:
            if len(cur["text"]) < 40:
                cur["text"].append(l)
            m = LOC.match(l)
            if m:
                cur["lines"].append(int(m.group(2)))
                if cur["line"] is None:
                    cur["line"] = int(m.group(2))
    r = []
    for c in out:
        if "aborting due to" in c["msg"]:
            continue
        low = c["msg"].lower()
        if "rlimit" in low or "resource limit" in low or "timed out" in low:
            k = "rlimit"
        elif c["code"] is None and any(x in low for x in VERIF_ERR):
            k = "verif"
        else:
            k = "other"
        r.append((k, c["msg"], c["line"], "\n".join(c["text"])))
    return r


def read_map(p):
    fns, lost, helpers = [], [], []
    for l in open(p):
        w = l.rstrip("\n").split("\t")
        if w[0] == "FN":
            fns.append({"name": w[1], "file": w[2], "start": int(w[3]), "end": int(w[4]), "kind": w[5], "skel": w[6]})
        elif w[0] == "LOST":
            lost.append((w[1], w[2]))
        elif w[0] == "HELPER":
            helpers.append((w[1], w[2], int(w[3]), int(w[4])))
    return fns, lost, helpers


def fn_hash(lines, f):
    return hashlib.sha256("\n".join(lines[f["start"] - 1:f["end"]]).encode()).hexdigest()[:16]


def run_verus(path, threads, timeout, extra=()):
    t = time.time()
    rc, o, e = sh(["verus", path, "--triggers-mode", "silent", "--rlimit", "40", "--num-threads", str(threads), "--output-json", "--time-expanded"] + list(extra), timeout, cwd=os.path.dirname(path))
    d = {}
    try:
        d = json.loads(o[o.index("{"):])
    except Exception:
        pass
    return rc, d, e, time.time() - t


def run_unit(vx, unit, prop, threads, timeout, canary=False):
    """extract and verify one unit, trusting step by step the functions which the verifier cannot read"""
    work = os.path.join(BUILD, "run", prop)
    os.makedirs(work, exist_ok=True)
    out = os.path.join(work, unit + (".canary" if canary else "") .replace(".", "_") + ".rs")
    trust, why = [], {}
    res = {"unit": unit, "verified": 0, "errors": 0, "fails": [], "undecided": {}, "fns": [], "smt_ms": 0, "wall_s": 0.0, "error": None, "hash": None, "times": {}}
    end = time.time() + timeout
    for _ in range(8):
        if time.time() > end - 5:
            res["error"] = "verifier gave no result in time"
            return res
        cmd = [vx, os.path.join(REPO, "src"), os.path.join(ROOT, "verus", unit + ".vu"), out]
        for t in trust:
            cmd += ["--trust", t]
        if canary:
            cmd.append("--canary")
        rc, o, e = sh(cmd, 120)
        if rc != 0:
            res["error"] = "extraction: " + (e or o)[-500:]
            return res
        fns, lost, helpers = read_map(out + ".map")
        lines = open(out).read().splitlines()
        res["hash"] = hashlib.sha256("\n".join(lines).encode()).hexdigest()[:16]
        for f in fns:
            f["hash"] = fn_hash(lines, f)
        res["fns"] = fns
        res["lost"] = lost
        res["helpers"] = [h[0] for h in helpers]
        rc, d, err, wall = run_verus(out, threads, end - time.time())
        res["wall_s"] += wall
        vr = d.get("verification-results", {})
        errs = parse_errors(err)
        if rc == -9 or not vr:
            if not errs:
                res["error"] = "verifier gave no result: " + err[-500:]
                return res

        def owner(line):
            for f in fns:
                if line is not None and f["start"] <= line <= f["end"]:
                    return f
            return None

        others = [x for x in errs if x[0] == "other"]
        if others and (vr.get("encountered-vir-error") or vr.get("verified", 0) == 0):
            new = []
            for k, msg, line, text in others:
                f = owner(line)
                if f and f["kind"] == "contract" and f["name"] not in trust:
                    trust.append(f["name"])
                    why[f["name"]] = "not in the subset of the verifier: " + msg
                    new.append(f["name"])
            if new:
                continue
            res["error"] = "unit rejected: " + "; ".join(x[1] for x in others)[:500]
            return res
        res["verified"] = vr.get("verified", 0)
        res["errors"] = vr.get("errors", 0)
        smt = d.get("times-ms", {}).get("smt", {})
        res["smt_ms"] = smt.get("smt-run", 0)
        for m in smt.get("smt-run-module-times", []):
            for fb in m.get("function-breakdown", []):
                res["times"][fb["function"].split("::", 1)[-1]] = {"ms": fb["time"], "ok": fb["success"], "mode": fb["mode:"]}
        for k, msg, line, text in errs:
            f = owner(line)
            name = f["name"] if f else None
            if k == "verif":
                res["fails"].append({"fn": name, "msg": msg, "line": line, "text": text})
            else:
                why.setdefault(name or "?", ("resource limit" if k == "rlimit" else msg))
        for t in trust:
            why.setdefault(t, "not in the subset of the verifier")
        for l in lost:
            why[l[0]] = "not found in the source"
        res["undecided"] = why
        return res
    res["error"] = "too many functions rejected"
    return res


def load_baseline():
    p = os.path.join(ROOT, "verus", "baseline.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def in_scope(prop, unit, fn):
    s = PROPS[prop]["units"][unit]
    return s is None or fn in s


def judge_unit(prop, r, base):
    """-> (alarms, undecided) ; an alarm is an obligation which held on the reference text and fails on a text of the same shape"""
    alarms, und = [], dict((k, v) for k, v in r["undecided"].items() if in_scope(prop, r["unit"], k) or k == "?")
    b = base.get(r["unit"], {})
    if r["error"]:
        return [], {"*": r["error"]}
    byname = {f["name"]: f for f in r["fns"]}
    for x in r["fails"]:
        n = x["fn"]
        if n is None:
            und["lemma"] = "a lemma over the extracted types is not accepted: " + x["msg"]
            continue
        if not in_scope(prop, r["unit"], n):
            continue
        f, ref = byname[n], b.get("fns", {}).get(n)
        if r["hash"] == b.get("hash"):
            und[n] = "unstable proof: the same text is accepted elsewhere"
        elif ref is None:
            und[n] = "no reference"
        elif ref["skel"] != f["skel"]:
            und[n] = "the loops of the function changed: its annotations no longer apply"
        elif set(r["helpers"]) - set(b.get("helpers", [])):
            und[n] = "calls a function without contract: " + ", ".join(sorted(set(r["helpers"]) - set(b.get("helpers", []))))
        else:
            alarms.append(x)
    for a in alarms:
        und.pop(a["fn"], None)
    return alarms, und


# ------------------------------------------------------------------ main
def scan_trusted(prop):
    n = {}
    for unit in PROPS[prop]["units"]:
        p = os.path.join(BUILD, "run", prop, unit + ".rs")
        if os.path.exists(p):
            t = open(p).read()
            for k in ("external_body", "assume(", "admit(", "axiom ", "uninterp spec fn"):
                n[k] = n.get(k, 0) + t.count(k)
    return n


def search(exe, prop, seed, secs, threads=8):
    rc, o, e = sh([exe, prop, "--seed", str(seed), "--secs", str(secs), "--threads", str(threads)], secs * 4 + 120)
    try:
        return json.loads(o.strip().splitlines()[-1])
    except Exception:
        return {"error": "harness: rc=%s %s %s" % (rc, o[-300:], e[-300:])}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--rebaseline", action="store_true")
    ap.add_argument("--noproof", action="store_true", help="development only")
    ap.add_argument("--nosearch", action="store_true", help="development only")
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    if a.setup:
        vx = build_vx()
        exe, err = build_harness()
        print("setup: extractor ok, harness", "ok" if exe else "does not build: " + err)
        return 0
    if a.rebaseline:
        return rebaseline()
    if a.prop not in PROPS:
        print("unknown property", a.prop)
        return 2
    return check(a)


def rebaseline():
    vx = build_vx()
    units = sorted({u for p in PROPS.values() for u in p["units"]})
    base = {}
    ok = True
    with ThreadPoolExecutor(4) as ex:
        for u, r in zip(units, ex.map(lambda u: run_unit(vx, u, "baseline", 2, 900), units)):
            good = not r["error"] and not r["fails"] and not r["undecided"]
            ok = ok and good
            print(u, r["verified"], r["errors"], "ok" if good else ("NOT ACCEPTED", r["error"], [(x["fn"], x["msg"]) for x in r["fails"]], r["undecided"]))
            base[u] = {"hash": r["hash"], "verified": r["verified"], "helpers": r.get("helpers", []),
                       "fns": {f["name"]: {"skel": f["skel"], "hash": f["hash"]} for f in r["fns"] if f["kind"] == "contract"}}
    if ok:
        json.dump(base, open(os.path.join(ROOT, "verus", "baseline.json"), "w"), indent=1, sort_keys=True)
        print("recorded")
    return 0 if ok else 1


def check(a):
    t0 = time.time()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[prop]
    units = list(P["units"]) if not a.noproof else []
    base = load_baseline()
    for u in units:
        p = os.path.join(BUILD, "run", prop, u + ".rs")
        if os.path.exists(p):
            os.unlink(p)
    vx = build_vx()
    uto = 500 if tier == "quick" else 1500
    with ThreadPoolExecutor(10) as ex:
        fu = [ex.submit(run_unit, vx, u, prop, 2, uto) for u in units]
        fc = [ex.submit(run_unit, vx, u, prop, 1, uto, True) for u in units]
        fh = ex.submit(build_harness, prop)
        exe, herr = fh.result()
        results = [f.result() for f in fu]
        canaries = [f.result() for f in fc]
    alarms, und = [], {}
    for r in results:
        al, un = judge_unit(prop, r, base)
        for x in al:
            x["unit"] = r["unit"]
        alarms += al
        for k, v in un.items():
            und["%s/%s" % (r["unit"], k)] = v
    # vacuity: an assertion of false at the entry of each function under contract has to be rejected
    vac = []
    for r in canaries:
        bad = {x["fn"] for x in r["fails"]}
        for f in r["fns"]:
            if f["kind"] == "contract" and in_scope(prop, r["unit"], f["name"]) and f["name"] not in bad and f["name"] not in r["undecided"] and not r["error"]:
                vac.append("%s/%s" % (r["unit"], f["name"]))
    # failing inputs
    secs = (P.get("secs", 20) if tier == "quick" else P.get("secs_thorough", 300))
    found, s = None, None
    if exe and P.get("harness", True) and not a.nosearch:
        s = search(exe, prop, seed, secs)
        if s.get("failure"):
            found = s["failure"]
        elif alarms and not s.get("error"):
            s2 = search(exe, prop, seed + 1000, 60 if tier == "quick" else 300)
            if s2.get("failure"):
                found = s2["failure"]
    contracts, discharged_fns = [], []
    for r in results:
        failed = {x["fn"] for x in r["fails"]}
        for f in r["fns"]:
            if f["kind"] == "contract" and in_scope(prop, r["unit"], f["name"]):
                okf = f["name"] not in failed and f["name"] not in r["undecided"] and not r["error"]
                contracts.append("%s (%s)" % (f["name"], f["file"]))
                if okf:
                    discharged_fns.append(f["name"])
    obligations = sum(r["verified"] + r["errors"] for r in results)
    discharged = sum(r["verified"] for r in results)
    known = []
    if s and s.get("known"):
        listed = {k["id"]: k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"] if k["property"] == prop}
        for k in s["known"]:
            if k["id"] in listed:
                known.append((k["id"], listed[k["id"]]["what"]))
            elif not found:
                found = {"check": k.get("check"), "case": k.get("case"), "size": k.get("size"), "what": k["what"]}
    viol = 1 if (found or alarms) else 0
    tb = ["Verus 0.2026.09.13 and Z3 (its back end)", "extractor vx (what it rewrites: DESIGN.md, Extraction)",
          "contracts of the standard library in verus/shim.rs (Vec, BTreeSet, HashSet, iterators, clone and equality of derived types)"]
    tb += UNIT_TRUST.get(prop, [])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P["level"], "wall_s": 0, "violations": viol,
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "; ".join("vx %s/src verus/%s.vu build/run/%s/%s.rs && verus build/run/%s/%s.rs" % (REPO, u, prop, u, prop, u) for u in units),
            "trusted_base": tb,
            "back_end": "Verus -> Z3",
            "functions_under_contract": contracts,
            "functions_discharged": len(discharged_fns),
            "solver_ms": {r["unit"]: r["smt_ms"] for r in results},
            "undecided_this_run": und,
            "failed_obligations": [{"unit": x["unit"], "function": x["fn"], "message": x["msg"]} for x in alarms],
            "vacuous": vac,
            "trusted_markers_in_generated_text": scan_trusted(prop),
            "bounded": (s or {"not run": herr}),
            "evaluations": sum(c["cases"] for c in (s or {}).get("checks", [])),
            "rule": P.get("rule", "seeded random small terms; inputs too large for the oracle are skipped and not counted"),
            "samples": P.get("samples", []) or [c["check"] + " up to size %d" % c["max_size"] for c in (s or {}).get("checks", [])],
        },
        "assumptions": P.get("assumptions", []),
    }
    if P["level"] == "other":
        ev["coverage"]["explanation"] = P.get("explanation", "")
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    for i, w in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for k, v in und.items():
        print("undecided: %s: %s" % (k, v))
    print("%s: %d/%d obligations discharged in %d units, %d functions under contract; bounded search: %s" % (
        prop, discharged, obligations, len(units), len(contracts), "%d inputs" % ev["coverage"]["evaluations"] if s and "checks" in s else "not run " + herr[:300] + str((s or {}).get("error", ""))))
    if viol:
        rp = os.path.join(EVID, "replay_%s.txt" % prop)
        with open(rp, "w") as f:
            if found:
                f.write("failing input: %s\n" % found["what"])
                f.write("replay on the real code: %s %s --check %s --case %s --size %s\n" % (exe, prop, found["check"], found["case"], found["size"]))
            for x in alarms:
                f.write("\nfailed obligation: unit %s, function %s: %s\n%s\n" % (x["unit"], x["fn"], x["msg"], x["text"]))
            if not found:
                f.write("\nno failing input found within the bounds of the search: %s\n" % json.dumps(s))
        if found:
            print("failing input:", found["what"])
        for x in alarms:
            print("failed obligation:", x["unit"], x["fn"], x["msg"])
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if found else " " + NFI))
        return 1
    if vac:
        print("error: contract without reachable state:", vac)
        return 3
    nothing = all(r["error"] for r in results) if results else True
    if nothing and not (s and "checks" in s):
        print("error: neither the verifier nor the harness gave an answer")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
