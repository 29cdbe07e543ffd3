#!/usr/bin/env python3
"""Decides one property on /repo's current tree.

  run.py ID        extract the functions under contract, discharge their obligations with Verus,
                   and search for a concrete failing input on the real crate.

Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Anything else: the check could not answer.
"""
import json, os, re, subprocess, sys, time, threading, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, HERE)
from config import UNITS, PROPS  # noqa: E402

# messages by which the verifier says that an obligation does not hold
OBLIGATION = (
    "postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
    "possible arithmetic underflow/overflow", "decreases not satisfied", "possible division by zero",
    "could not prove termination", "unreachable", "possible bit shift",
)
# obligations that say "this does not panic and does not run forever"
PANIC = ("possible arithmetic underflow/overflow", "decreases not satisfied", "possible division by zero", "could not prove termination", "possible bit shift")
LIMIT = ("Resource limit", "rlimit")


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)


STOP = threading.Event()  # a failing input is known: the proof cannot succeed


def run_verifier(cmd, timeout, cwd):
    """the verifier's output; given up after `timeout`, or a minute after a failing input was found"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=cwd, start_new_session=True)
    out = {}
    th = threading.Thread(target=lambda: out.update(zip(("o", "e"), p.communicate())))
    th.start()
    end, stopped = time.time() + timeout, None
    while th.is_alive():
        th.join(0.3)
        if STOP.is_set() and stopped is None:
            stopped = time.time()
        if th.is_alive() and (time.time() > end or (stopped and time.time() > stopped + 60)):
            os.killpg(p.pid, 9)
            th.join()
            raise subprocess.TimeoutExpired(cmd, timeout)
    return p.returncode, out.get("o", ""), out.get("e", "")


def tags_of(lines, a, b):
    out = set()
    for l in lines[a - 1:b]:
        for m in re.findall(r"// \[([A-Z0-9 +]+)\]", l):
            out.update(m.split())
    return out


def trusted(gen):
    """every assumption in the generated file that the verifier does not check"""
    out = []
    text = open(gen).read()
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(broadcast )?(?:proof |uninterp |axiom )*(fn|struct|enum|type|spec fn)\s+(\w+)", text):
        out.append("external_body: " + m.group(3))
    for m in re.finditer(r"assume_specification\s*(?:<[^>\[]*>)?\s*\[\s*([^\]]+?)\s*\]", text):
        out.append("assume_specification: " + " ".join(m.group(1).split()))
    for m in re.finditer(r"\buninterp spec fn (\w+)", text):
        out.append("uninterpreted: " + m.group(1))
    for m in re.finditer(r"\b(assume|admit)\s*\(", text):
        out.append(m.group(1) + "() in the generated text")
    for m in re.finditer(r"#\[verifier::external_type_specification\]|#\[verifier::external_trait_specification\]", text):
        out.append(m.group(0)[2:-1])
    seen, res = set(), []
    for o in out:
        if o not in seen:
            seen.add(o)
            res.append(o)
    return res


def shape(mp):
    """what a proof is written against: the functions, their signatures and their loops"""
    d = {}
    for f in mp["functions"]:
        n = f["name"].split(" [arm")[0]
        d[n] = [f["sig"], f["kinds"], f["contract"]]
    return d


def verify_unit(unit, prop, workdir, probe_all=False):
    """-> dict(status= proved | failed | limit, ...)"""
    t0 = time.time()
    gen, mp = os.path.join(workdir, unit + ".rs"), os.path.join(workdir, unit + ".map.json")
    # only the clauses of this property (and those every proof leans on) are put in
    env = dict(os.environ, EXTRACT_ONLY=prop)
    env.pop("EXTRACT_PROBE", None)
    res = dict(unit=unit, status="limit", reasons=[], failed=[], functions=0, loops=0, obligations=0, discharged=0, smt_ms=0, trusted=[], edits={}, clauses=0)
    r = sh([os.path.join(BUILD, "extract/release/extract"), os.path.join(VERIF, "units", unit + ".vrs"), REPO, gen, mp], 60, env=env)
    if r.returncode != 0:
        res["reasons"].append("extraction: " + (r.stderr or r.stdout).strip()[:400])
        return res
    m = json.load(open(mp))
    res["edits"] = m["edits"]
    text = open(gen).read()
    marker = "\nfn main() {}\n} // verus!\n"
    assert marker in text
    # must fail: shows that what is assumed is not contradictory
    text = text.replace(marker, "\nproof fn vacuity_probe_() { assert(false); }\n" + marker)
    open(gen, "w").write(text)
    lines = text.split("\n")
    res["clauses"] = sum(1 for l in lines if re.search(r"// \[[A-Z0-9 +]*\b%s\b" % prop, l))
    res["functions"] = len({f["name"].split(" [arm")[0] for f in m["functions"] if not f["external"] and f["contract"] != "none"})
    res["loops"] = sum(f["loops"] for f in m["functions"] if "[arm" not in f["name"] or f["name"].endswith("'\\n']"))
    res["trusted"] = trusted(gen)
    cmd = ["verus", "--triggers-mode", "silent", os.path.basename(gen), "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "6"] + UNITS[unit]
    res["cmd"] = " ".join(cmd)
    try:
        _, vout, verr = run_verifier(cmd, 600, workdir)
    except subprocess.TimeoutExpired:
        res["reasons"].append("verifier: stopped, a failing input is known" if STOP.is_set() else "verifier: no answer in 600 s")
        return res
    open(os.path.join(workdir, unit + ".stderr"), "w").write(verr)
    try:
        j = json.loads(vout)
        vr = j["verification-results"]
    except Exception:
        res["reasons"].append("verifier: " + (verr or vout)[:400])
        j, vr = None, None
    diags = []
    for l in verr.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due"):
                diags.append(d)
    probe_line = next(i for i, l in enumerate(lines, 1) if "vacuity_probe_" in l)
    probe_failed = False
    fns = m["functions"]
    for d in diags:
        msg = d["message"]
        spans = d["spans"]
        if any(s["line_start"] == probe_line for s in spans):
            probe_failed = True
            continue
        prim = next((s for s in spans if s["is_primary"]), spans[0] if spans else None)
        if any(k in msg for k in LIMIT):
            res["reasons"].append("resource limit: " + msg[:200])
            continue
        if not any(k in msg for k in OBLIGATION):
            res["reasons"].append("not supported: " + msg[:300])
            continue
        where = None
        for s in [prim] + spans:
            for f in fns:
                if s and f["gen_start"] <= s["line_start"] <= f["gen_end"]:
                    where = f
                    break
            if where and "failed this" not in (s.get("label") or ""):
                break
        tg = set()
        for s in spans:
            tg |= tags_of(lines, s["line_start"], s["line_end"]) if s.get("label") in ("failed this postcondition", "failed precondition") or s["is_primary"] else set()
        panic = any(k in msg for k in PANIC) or (msg.startswith("precondition") and not tg)
        # a failing obligation in a lemma, not in a function of /repo, says nothing about /repo
        res["failed"].append(dict(message=msg, function=where["name"] if where else None, file=where["file"] if where else None,
                                  line=where["line"] if where else None, tags=sorted(tg), panic=panic, rendered=d["rendered"]))
    if j is None:
        return res
    fb = []
    for mm in j["times-ms"].get("smt", {}).get("smt-run-module-times", []):
        fb += mm.get("function-breakdown", [])
    fb = [f for f in fb if "vacuity_probe_" not in f["function"]]
    res["obligations"] = len(fb)
    res["discharged"] = sum(1 for f in fb if f["success"])
    res["smt_ms"] = j["times-ms"].get("smt", {}).get("total", 0)
    res["wall_s"] = round(time.time() - t0, 1)
    if vr.get("encountered-vir-error") or (not fb and not res["reasons"]):
        res["reasons"].append("verifier: the generated text was rejected")
        return res
    if not probe_failed and not res["reasons"]:
        res["reasons"].append("the must-fail probe did not fail")
    if res["functions"] == 0 or res["obligations"] == 0:
        res["reasons"].append("nothing was verified")
    base = os.path.join(VERIF, "units", unit + ".shape.json")
    res["moved"] = []
    if os.path.exists(base):
        b, s = json.load(open(base)), shape(m)
        for k in sorted(set(b) | set(s)):
            if b.get(k) != s.get(k):
                res["moved"].append(k)
    res["missing"] = m["missing"]
    if res["missing"]:
        res["reasons"].append("contract without its function: " + ", ".join(res["missing"]))
    if res["failed"]:
        res["status"] = "failed"
        if res["moved"]:
            res["reasons"].append("functions, signatures or loops other than the contracts were written for: " + ", ".join(res["moved"][:6]))
    elif res["reasons"]:
        res["status"] = "limit"
    else:
        res["status"] = "proved"
    return res


def search(prop, cfg, seed, workdir, cases, secs, out):
    """-> (found, report or None, error or None). The harness is restarted where the code under test ends it."""
    outd = os.path.join(workdir, out)
    shutil.rmtree(outd, ignore_errors=True)
    os.makedirs(outd)
    total = None
    skip = 0
    t0 = time.time()
    for attempt in range(40):
        left = secs - (time.time() - t0)
        if left <= 0:
            break
        cmd = [os.path.join(BUILD, "harness/release/harness"), "search", prop, "--seed", str(seed), "--cases", str(cases),
               "--secs", str(max(1, int(left))), "--skip", str(skip), "--out", outd]
        try:
            r = sh(cmd, secs + 60, cwd=workdir)
        except subprocess.TimeoutExpired:
            return False, total, "the search did not end"
        rep = os.path.join(outd, "report.json")
        if os.path.exists(rep) and r.returncode in (0, 1):
            j = json.load(open(rep))
            os.remove(rep)
            if total is None:
                total = j
            else:
                for k in ("evaluations", "nontrivial", "skipped", "known_hits", "distinct_nontrivial"):
                    total[k] += j[k]
                total["known"] = sorted(set(total["known"]) | set(j["known"]))
                total["samples"] = (total["samples"] + j["samples"])[:3]
            if r.returncode == 1:
                return True, total, None
            if j["next"] >= cases:
                break
            if j["next"] <= skip:
                break
            skip = j["next"] + 4
            continue
        # ended by the code under test
        cur = []
        for f in os.listdir(outd):
            if f.startswith("current."):
                try:
                    cur.append(json.load(open(os.path.join(outd, f))))
                except ValueError:
                    pass
        if not cur:
            return False, total, "the search ended with status %s: %s" % (r.returncode, r.stderr[-300:])
        if r.returncode < 0 and cfg.get("panics"):
            # killed by a signal, e.g. the stack ran out: find which case it was
            for i, c in cur:
                f = os.path.join(outd, "one.json")
                json.dump(dict(property=prop, message="ends the process", kind="input", case=c), open(f, "w"))
                q = sh([os.path.join(BUILD, "harness/release/harness"), "replay", f], 60, cwd=workdir)
                if q.returncode < 0:
                    json.dump(dict(property=prop, message="the process dies with signal %d" % -q.returncode, kind="input", case=c), open(os.path.join(outd, "fail.json"), "w"))
                    return True, total or {}, None
        skip = max(c[0] for c in cur) + 1
    return False, total, None


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    workdir = os.path.join(BUILD, "run", prop)
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    for f in ("%s.json" % prop, "replay/%s.json" % prop):
        try:
            os.remove(os.path.join(VERIF, "evidence", f))
        except FileNotFoundError:
            pass
    b = sh(["bash", os.path.join(VERIF, "extract/build.sh")], 600)
    if b.returncode != 0:
        print("cannot build the extractor:\n" + b.stderr[-2000:])
        return 2
    mult = 6 if tier == "thorough" else 1

    def bounded():
        h = sh(["bash", os.path.join(VERIF, "harness/build.sh")], 800)
        if h.returncode != 0:
            return False, None, "the harness does not build against this tree: " + h.stderr[-1500:]
        if cfg.get("bin"):
            h = sh(["bash", os.path.join(VERIF, "harness/bin.sh")], 800)
            if h.returncode != 0:
                return False, None, "the command does not build: " + h.stderr[-1500:]
        res = search(prop, cfg, seed, workdir, cfg["cases"] * mult, cfg["secs"] * mult, "search")
        if res[0]:
            STOP.set()
        return res

    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(bounded)
        fv = [ex.submit(verify_unit, u, prop, workdir) for u in cfg["units"]]
        units = [f.result() for f in fv]
        found, report, err = fb.result()

    limits = [u["unit"] + ": " + r for u in units for r in u["reasons"]]
    # obligations of this property that do not hold although the contracts fit the code
    broken, support = [], []
    for u in units:
        for f in u["failed"]:
            mine = prop in f["tags"] or (cfg.get("panics") and f["panic"] and not f["tags"])
            if mine and f["function"]:
                (broken if not u["reasons"] else support).append(f)
            else:
                support.append(f)
    proved = bool(units) and all(u["status"] == "proved" for u in units)
    # no proof on this tree (or none written): search longer before answering
    if not found and err is None and not proved and units:
        f2, rep2, err2 = search(prop, cfg, seed + 7919, workdir, cfg["cases"] * 10, cfg.get("long", 120) * mult, "search2")
        found = f2
        if rep2 and report:
            for k in ("evaluations", "nontrivial", "skipped", "known_hits", "distinct_nontrivial"):
                report[k] += rep2[k]
    level = "proof" if proved and cfg.get("level", "proof") == "proof" else "exploration"
    known = []
    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            mm = re.match(r"known: property=(\S+) (.*)", l)
            if mm and mm.group(1) == prop:
                known.append(mm.group(2).strip())
    hits = set((report or {}).get("known", []))
    for k in known:
        key = k.split(" -- ")[0].strip()
        if key in hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
    unlisted = [h for h in hits if not any(k.split(" -- ")[0].strip() == h for k in known)]
    replay = os.path.join(VERIF, "evidence", "replay", prop + ".json")
    violation = None
    if found:
        src = next(p for p in (os.path.join(workdir, d, "fail.json") for d in ("search2", "search")) if os.path.exists(p))
        shutil.copy(src, replay)
        f = json.load(open(replay))
        violation = "VIOLATION property=%s replay=%s" % (prop, replay)
        print("failing input: %s" % f["message"])
        print("replay with: %s replay %s" % (os.path.join(BUILD, "harness/release/harness"), replay))
    elif unlisted:
        json.dump(dict(property=prop, message="; ".join(unlisted), kind="unlisted"), open(replay, "w"))
        violation = "VIOLATION property=%s replay=%s" % (prop, replay)
    elif broken:
        json.dump(dict(property=prop, kind="obligation", message="no failing input found",
                       obligations=[{k: f[k] for k in ("message", "function", "file", "line", "tags", "rendered")} for f in broken]), open(replay, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
        for f in broken[:4]:
            print("%s in %s (%s:%s)" % (f["message"], f["function"], f["file"], f["line"]))
    cov = dict(
        obligations=sum(u["obligations"] for u in units), discharged=sum(u["discharged"] for u in units),
        checker_cmd="; ".join(u.get("cmd", "") for u in units) or "none",
        trusted_base=sorted({t for u in units for t in u["trusted"]}) + ["Verus 0.2026.09.13 and its Z3", "rustc front end", "/verif/extract (the edits it makes are listed under extraction)"],
        functions_under_contract=sum(u["functions"] for u in units), clauses_of_this_property=sum(u["clauses"] for u in units),
        solver_time_ms=sum(u["smt_ms"] for u in units), back_end="Verus 0.2026.09.13 / Z3",
        obligation_unit="one verification condition query group per function, lemma or match arm",
        extraction={u["unit"]: u["edits"] for u in units},
        must_fail_probe="failed as it must" if proved else "see limits",
        limits=limits, failed=[dict(function=f["function"], message=f["message"], tags=f["tags"]) for f in broken + support][:20],
        bounded=dict(label="bounded: concrete inputs run on the real crate; never counted as proved", error=err, **({k: report[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples", "skipped", "known_hits")} if report else {})),
    )
    if level == "exploration" or not units:
        cov["evaluations"] = (report or {}).get("evaluations", 0)
        cov["distinct_nontrivial"] = (report or {}).get("distinct_nontrivial", 0)
        cov["rule"] = (report or {}).get("rule", "")
        cov["samples"] = (report or {}).get("samples", [])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=cfg.get("assume", []) + ["sources are shorter than 2^63 bytes; usize has 64 bits; no allocation fails"],
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if violation:
        print(violation)
        return 1
    if err and not proved:
        print("no answer: " + err)
        for l in limits:
            print("  " + l)
        return 2
    if units and not proved:
        print("%s: not proved on this tree (bounded search found nothing): %s" % (prop, "; ".join(limits + [f["message"] + " in " + str(f["function"]) for f in support])[:600]))
    else:
        print("%s: held; %d of %d obligations discharged, %d inputs tried" % (prop, cov["discharged"], cov["obligations"], (report or {}).get("evaluations", 0)))
    return 0


if __name__ == "__main__":
    sys.exit(main())
