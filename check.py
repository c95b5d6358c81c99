#!/usr/bin/env python3
"""check.py PROP: decide one property on /repo's current tree.

1. extract the functions under contract from /repo (vx) and let Verus discharge every obligation;
2. a failed obligation of a function the property depends on is a violation: a failing input is
   searched on the real code (replay); without one the violation names the obligation;
3. a function that cannot be brought to the verifier any more (its contract's anchors are gone, or
   it uses something the verifier does not take) is judged by the bounded search alone (labelled);
4. a short search on the real code runs in every case.
Exit 0 / 1 as MANIFEST.json says; evidence/<PROP>.json is rewritten.
"""
import fnmatch, json, os, re, shutil, signal, subprocess, sys, time, traceback

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, "build")
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS  # noqa: E402
import gen_builtin  # noqa: E402
import macros_search  # noqa: E402

ENV = dict(os.environ)
ENV["PATH"] = "/opt/veriftools/bin:/root/.cargo/bin:/usr/local/cargo/bin:" + ENV.get("PATH", "")
ENV["CARGO_NET_OFFLINE"] = "true"


def run(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, timeout=timeout, **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda x: x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
        return 124, d(e.stdout), d(e.stderr) + "\n(timed out)"


def build_vx():
    t = os.path.join(B, "vx")
    rc, o, e = run(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(V, "vx/Cargo.toml"), "--target-dir", t], cwd=V)
    if rc != 0:
        raise RuntimeError("building vx failed:\n" + e)
    return os.path.join(t, "debug/vx")


def build_replay():
    """the search crate, built against /repo's current tree (None: it does not compile)"""
    t = os.path.join(B, "replay")
    rc, o, e = run(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(V, "replay/Cargo.toml"), "--target-dir", t], cwd=V)
    if rc != 0:
        return None, e[-3000:]
    return os.path.join(t, "debug/replay"), ""


class Verified:
    pass


def verify(unit, work, timeout, thorough=False):
    """extract + verify; stubs whatever cannot be brought to the verifier"""
    vx = build_vx()
    os.makedirs(work, exist_ok=True)
    rs, mp = os.path.join(work, unit + ".rs"), os.path.join(work, unit + ".json")
    stubs, reasons = [], {}
    # other spellings / proof texts of a function (vx variants): tried when one is not accepted or not proved
    cand, tried, settled, before = {}, {}, set(), []
    t0 = time.time()
    res = Verified()
    res.rounds = 0
    res.lost_unit = None
    if unit == "builtin":
        # what the definition files say, and the obligations about them
        try:
            gen_builtin.generate(REPO, os.path.join(B, "gen", "builtin.vx"))
        except Exception as e:
            res.lost_unit = "the built-in definition files are not of the known form: %r" % e
            res.map, res.failed, res.out, res.json = {"functions": [], "items": [], "errors": [], "edits": {}}, {}, "", {}
            return finish(res, stubs, reasons, t0)
    while True:
        res.rounds += 1
        cmd = [vx, REPO, os.path.join(V, "contracts", unit + ".vx"), rs, mp]
        for s in stubs:
            cmd += ["--stub", s]
        for i, n in cand.items():
            cmd += ["--cand", "%s=%d" % (i, n)]
        rc, o, e = run(cmd, timeout=120)
        if rc != 0:
            res.lost_unit = "extraction failed: " + e[-1500:]
            res.map, res.failed, res.out, res.json = {"functions": [], "items": [], "errors": [], "edits": {}}, {}, e, {}
            return finish(res, stubs, reasons, t0)
        res.map = json.load(open(mp))
        vcmd = ["verus", rs, "--output-json", "--time", "--num-threads", "8", "--multiple-errors", "3", "--", "--error-format=json"]
        res.cmd = "verus %s.rs --num-threads 8 --multiple-errors 3" % unit
        left = timeout - (time.time() - t0)
        if left < 20:
            if before:
                res.failed, res.out = before[-1]
                return finish(res, stubs, reasons, t0)
            res.lost_unit = "verification did not end within %d s" % timeout
            res.failed, res.out, res.json = {}, "", {}
            return finish(res, stubs, reasons, t0)
        rc, o, e = run(vcmd, timeout=left, cwd=work)
        try:
            res.json = json.loads(o)
        except ValueError:
            res.json = {}
        diags = []
        for l in e.splitlines():
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                    diags.append(d)
        vr = res.json.get("verification-results", {})
        ranges = [(f["out"][0], f["out"][1], f["id"]) for f in res.map["functions"] if f["out"][1]]

        count = {f["id"]: f.get("cands", 0) for f in res.map["functions"] if f["mode"] == "verify"}

        def another(ids, kind):
            """ids whose next (or best) spelling is to be tried now"""
            moved = []
            for i in ids:
                if i in stubs or i in settled or count.get(i, 0) < 2:
                    continue
                k = cand.get(i, 0)
                tried.setdefault(i, []).append((k, kind))
                if k + 1 < count[i] and time.time() - t0 < 0.4 * timeout:
                    cand[i] = k + 1
                    moved.append(i)
                    continue
                settled.add(i)
                best = [n for n, w in tried[i] if w == "failed"]
                if best and best[0] != k:
                    cand[i] = best[0]
                    moved.append(i)
            return moved

        def owners(d):
            ids = []
            for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
                for a, b, i in ranges:
                    if a <= s["line_start"] < b and i not in ids:
                        ids.append(i)
            return ids

        verifying = bool(vr) and not vr.get("encountered-vir-error", False) and "verified" in vr
        compile_errs = [d for d in diags if not is_verification_error(d)]
        if compile_errs and not (verifying and vr.get("verified", 0) > 0 and all(is_verification_error(d) or is_rlimit(d) for d in diags)):
            new = []
            for d in compile_errs:
                if is_rlimit(d):
                    continue
                for i in owners(d)[:1]:
                    if i not in stubs and i not in new:
                        new.append(i)
                        reasons.setdefault(i, d["message"][:300])
            moved = another(new, "rejected")
            new = [i for i in new if i not in moved]
            if moved and not new and res.rounds < 24:
                continue
            if new and res.rounds < 24:
                stubs += new
                continue
            res.lost_unit = "not accepted by the verifier: " + "; ".join(d["message"][:200] for d in compile_errs[:3])
            res.failed, res.out = {}, e
            return finish(res, stubs, reasons, t0)
        if not diags and not vr.get("success"):
            res.lost_unit = "the verifier gave no answer: rc %s %s" % (rc, e[-600:])
            res.failed, res.out = {}, e
            return finish(res, stubs, reasons, t0)
        # verification errors -> functions / lemmas
        failed, rl = {}, []
        lines = open(rs).read().split("\n")
        for d in diags:
            if is_rlimit(d):
                o2 = owners(d)[:1] or [lemma_name(lines, d)]
                rl += o2
                continue
            # the function that has to show it: body span if there is one
            who = blame(d, ranges, lines)
            for i in who:
                failed.setdefault(i, []).append(d["message"] + " @ " + span_text(d))
        rl = [i for i in rl if i not in failed]
        known = {f["id"] for f in res.map["functions"]}
        if failed:
            before.append((failed, "\n".join(d["rendered"] for d in diags)))
        moved = another(rl, "limit") + another(list(failed), "failed")
        if moved and res.rounds < 24:
            continue
        new = [i for i in rl if i in known and i not in stubs]
        if new and res.rounds < 24:
            for i in new:
                reasons[i] = "resource limit of the solver reached"
            stubs += new
            continue
        if rl and not new:
            res.lost_unit = "resource limit in " + ", ".join(rl)
        res.failed, res.out = failed, "\n".join(d["rendered"] for d in diags)
        return finish(res, stubs, reasons, t0)


def finish(res, stubs, reasons, t0):
    res.undecided = {}
    for f in res.map["functions"]:
        if f["mode"] in ("stub", "missing"):
            res.undecided[f["id"]] = reasons.get(f["id"]) or ("contract anchors lost: " + "; ".join(f["lost"]) if f["lost"] else "not extracted")
        elif f.get("extra"):
            res.undecided[f["id"]] = "the implementation also defines %s, which has no contract" % ", ".join(f["extra"])
    for e in res.map["errors"]:
        res.undecided["item " + str(e.get("item"))] = str(e.get("error"))
    res.wall = time.time() - t0
    return res


VERR = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic",
        "decreases not satisfied", "possible division by zero", "assertion fails", "unwind", "loop invariant", "failed to meet", "not all errors",
        "recommendation not met", "ensures", "requires not satisfied", "precondition", "possible bit shift", "assert_by", "could not prove termination",
        "expression simplifies to false", "failed to prove", "unreached", "index out of bounds", "cannot prove")


def is_rlimit(d):
    m = d["message"].lower()
    return "rlimit" in m or "resource limit" in m


def is_verification_error(d):
    if d.get("code"):
        return False
    m = d["message"]
    return any(v in m for v in VERR)


def span_text(d):
    for s in d["spans"]:
        if s["is_primary"] and s["text"]:
            return " ".join(t["text"].strip() for t in s["text"])[:160]
    return ""


def lemma_name(lines, d):
    for s in sorted(d["spans"], key=lambda s: ((s.get("label") or "").startswith("failed "), not s["is_primary"])):
        k = min(s["line_start"], len(lines)) - 1
        while k >= 0:
            m = re.search(r"\bfn\s+([A-Za-z0-9_]+)", lines[k])
            if m:
                return "lemma " + m.group(1)
            k -= 1
    return "lemma ?"


def blame(d, ranges, lines):
    """for a failed precondition the caller, for a failed postcondition the function itself: the
    function holding the span that is not a contract clause of another function"""
    ids = []
    for s in d["spans"]:
        for a, b, i in ranges:
            if a <= s["line_start"] < b:
                ids.append((s, i))
    if not ids:
        return [lemma_name(lines, d)]
    if d["message"].startswith("precondition"):
        # the call site is the primary span; the clause is labelled "failed precondition"
        c = [i for s, i in ids if (s.get("label") or "") != "failed precondition"]
        # call site outside any extracted function: a lemma
        outside = [s for s in d["spans"] if (s.get("label") or "") != "failed precondition" and not any(a <= s["line_start"] < b for a, b, _ in ranges)]
        if c:
            return [c[0]]
        if outside:
            return [lemma_name(lines, {"spans": outside})]
    return [ids[0][1]]


def in_set(i, pats):
    return any(fnmatch.fnmatchcase(i, p.replace("[", "[[]")) for p in pats)


def trusted(rs):
    out = []
    if not os.path.exists(rs):
        return out
    L = open(rs).read().split("\n")
    for k, l in enumerate(L):
        if re.search(r"external_body|external_fn_specification|assume_specification|\badmit\(|\bassume\(|external_type_specification|\baxiom fn\b", l) and not l.strip().startswith("//"):
            j = k
            name = None
            while j < min(k + 8, len(L)):
                m = re.search(r"\bfn\s+([A-Za-z0-9_]+)|assume_specification.*?\[\s*(.*?)\s*\]|struct\s+([A-Za-z0-9_]+)", L[j])
                if m:
                    name = m.group(1) or m.group(2) or m.group(3)
                    break
                j += 1
            out.append((name or l.strip())[:120])
    return sorted(set(out))


def search(exe, prop, seed, ms, out):
    """bounded search; eight processes (seeds seed, seed+1000003, ...) when there is something to look for"""
    n = 1 if ms <= 10_000 else 8
    procs = []
    for k in range(n):
        o = out if k == 0 else "%s.%d" % (out, k)
        lg = open(o + ".log", "w+")
        procs.append((subprocess.Popen([exe, prop, "--seed", str(seed + 1000003 * k), "--ms", str(ms), "--out", o], stdout=lg, stderr=subprocess.STDOUT, env=ENV, start_new_session=True), o, lg))
    end = time.time() + ms / 1000 + 200
    cases, verdict, broke, live = 0, None, None, list(procs)
    while live and verdict is None and time.time() < end:
        time.sleep(0.05)
        for x in list(live):
            p, o, lg = x
            if p.poll() is None:
                continue
            live.remove(x)
            lg.seek(0)
            txt = lg.read()
            m, f = re.search(r"^CASES (\d+)", txt, re.M), re.search(r"^FAIL (\d+) (.*)", txt, re.M)
            if p.returncode == 0 and m:
                cases += int(m.group(1))
            elif f and os.path.exists(o):
                if o != out:
                    shutil.copy(o, out)
                cases += int(f.group(1)) + 1
                verdict = f.group(2)
                break
            else:
                broke = "the search itself broke: " + txt[-400:]
    for p, o, lg in procs:
        if p.poll() is None:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        lg.close()
    if live and verdict is None:
        broke = "the search itself did not end"
    verdict = verdict or broke
    return verdict is None, cases, verdict or ""


def known_findings(prop):
    out = []
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append(m.group(2))
    return out


def main():
    prop = sys.argv[1]
    P = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    t0 = time.time()
    work = os.path.join(B, "check", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    unit = P["unit"]
    try:
        v = verify(unit, work, 420 if not thorough else 1800)
    except Exception as e:  # no verdict from the verifier: the search decides alone
        traceback.print_exc()
        v = Verified()
        v.rounds, v.failed, v.undecided, v.json, v.out, v.wall = 0, {}, {}, {}, "", 0.0
        v.map = {"functions": [], "items": [], "errors": [], "edits": {}}
        v.lost_unit = "the machinery failed: %r" % e
    pats = P["functions"]
    fset = [f for f in v.map["functions"] if in_set(f["id"], pats)]
    missing = [p for p in pats if "*" not in p and not any(f["id"] == p for f in v.map["functions"])]
    fail = {i: m for i, m in v.failed.items() if i.startswith("lemma ") or in_set(i, pats)}
    und = {i: m for i, m in v.undecided.items() if i.startswith("item ") or in_set(i, pats)}
    for m in missing:
        und[m] = "no longer found"
    if v.lost_unit:
        und["(unit %s)" % unit] = v.lost_unit
    exe, berr = build_replay()
    if fail:
        ms = 60_000 if not thorough else 300_000
    elif und:
        ms = 45_000 if not thorough else 300_000
    else:
        ms = P.get("ms", 6_000) if not thorough else 120_000
    rep = os.path.join(work, "replay.json")
    found, cases, what = None, 0, ""
    if exe:
        okk, cases, what = (macros_search.search if prop == "C17" else search)(exe, prop, seed, ms, rep)
        found = not okk
        if found and not os.path.exists(rep):
            # the search itself broke: no verdict from it
            found = None
    violation = None
    if found:
        violation = "VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rep, V))
        j = json.load(open(rep))
        j["failed_obligations"] = fail
        json.dump(j, open(rep, "w"), indent=1)
    elif fail:
        json.dump({"property": prop, "failed_obligations": fail, "verifier_output": v.out[:20000],
                   "unit": unit, "searched_cases": cases,
                   "replay": "no failing input was found; run check.py %s again to discharge the obligations" % prop}, open(rep, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, os.path.relpath(rep, V))
    elif found is None and exe is None and und:
        print("note: the search crate does not build against the current tree: " + berr[-400:])

    fb = func_times(v.json)
    names = {f["id"] for f in fset if f["mode"] == "verify"}
    smt = v.json.get("times-ms", {}).get("smt", {}).get("total") if isinstance(v.json.get("times-ms", {}).get("smt"), dict) else None
    vr = v.json.get("verification-results", {})
    nver, nerr = vr.get("verified", 0), vr.get("errors", 0)
    cov = {
        "obligations": nver + nerr,
        "discharged": nver,
        "obligations_note": "obligation = one function, loop or lemma query of the unit that Verus sends to Z3; the whole unit is verified on every run",
        "checker_cmd": "vx /repo contracts/%s.vx -> %s" % (unit, getattr(v, "cmd", "verus")),
        "back_end": "Verus 0.2026.09.13 (Z3)",
        "solver_ms": smt,
        "verification_wall_s": round(v.wall, 1),
        "functions_under_contract": sorted(names),
        "functions_undecided_bounded_only": und,
        "failed_obligations": fail,
        "lemmas": P.get("lemmas", []),
        "source_hashes": {f["id"]: f["sha"] for f in fset if "sha" in f},
        "extraction_edits": v.map.get("edits", {}),
        "trusted_base": trusted(os.path.join(work, unit + ".rs")) + P.get("trusted", []),
        "bounded_stand_in": {
            "label": "bounded, not counted as proved",
            "evaluations": cases,
            "rule": "random and directed cases, a function of (property, VERIF_SEED, index), against an independent model on the real crate",
            "budget_ms": ms,
            "result": "violation: " + what if found else ("no failing case" if exe else "search crate did not build: " + berr[-300:]),
        },
    }
    known = known_findings(prop)
    if thorough and not v.lost_unit:
        cov["vacuity_probe"] = probe(unit, work, names)
    level = "proof" if not und else "other"
    if level == "other":
        cov["explanation"] = "some functions could not be brought to the verifier on this tree; for these only the bounded search ran"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s: %d/%d obligations discharged; functions of this property under contract: %d, undecided: %d, failed: %d; bounded cases on the real code: %d"
          % (prop, nver, nver + nerr, len(names), len(und), len(fail), cases))
    for i, m in und.items():
        print("undecided (bounded only): %s: %s" % (i, m[:200].replace("\n", " ")))
    for i, m in fail.items():
        print("failed obligation: %s: %s" % (i, "; ".join(m)[:400]))
    if found:
        print("failing input: " + what[:600])
    if violation:
        print(violation)
        return 1
    return 0


def func_times(j):
    out = {}
    try:
        for m in j["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m.get("function-breakdown", []):
                out[f["function"]] = f
    except (KeyError, TypeError):
        pass
    return out


def probe(unit, work, names):
    """assert(false) at the start of every contracted body must fail (preconditions are satisfiable)"""
    vx = build_vx()
    rs, mp = os.path.join(work, "probe.rs"), os.path.join(work, "probe.json")
    rc, o, e = run([vx, REPO, os.path.join(V, "contracts", unit + ".vx"), rs, mp, "--probe"], timeout=120)
    m = json.load(open(mp))
    rc, o, e = run(["verus", rs, "--num-threads", "8", "--", "--error-format=json"], timeout=900, cwd=work)
    hit = set()
    for l in e.splitlines():
        if not l.startswith("{"):
            continue
        d = json.loads(l)
        if d.get("level") != "error":
            continue
        for s in d["spans"]:
            for f in m["functions"]:
                if f["out"][0] <= s["line_start"] < f["out"][1]:
                    hit.add(f["id"])
    vac = sorted(n for n in names if n not in hit and not next((f.get("derived") for f in m["functions"] if f["id"] == n), False))
    return {"probed": len(names), "reachable": len([n for n in names if n in hit]), "not_shown_reachable": vac}


if __name__ == "__main__":
    sys.exit(main())
