"""Decide one property on the current tree of /repo.

  check.py <property> [--entries a,b] [--keep]

1. compiles the property's harness (reference specification + /repo's headers) to LLVM IR with
   clang -- compilation only, nothing is linked or run;
2. runs the gated value-numbering dataflow pass over every entry point of the harness;
3. discharges the obligations the entry points raise;
4. reports each undischarged obligation with the construct of /repo that produced the value.
"""
import argparse, hashlib, json, multiprocessing as mp, os, re, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, os.path.dirname(HERE))

CXXFLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-DNDEBUG", "-DEIGEN_DONT_VECTORIZE",
            "-fno-math-errno", "-ferror-limit=5", "-Wno-everything"]


def incs():
    return ["-I" + VERIF + "/harness", "-I" + REPO + "/multirotor_simulator", "-I" + REPO + "/pid_controller/include",
            "-isystem", "/usr/include/eigen3"]


def irdump():
    src = VERIF + "/engine/irdump.cpp"
    tag = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = VERIF + "/build"
    os.makedirs(d, exist_ok=True)
    exe = "%s/irdump-%s" % (d, tag)
    if not os.path.exists(exe):
        flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
        flags = [f for f in flags if f != "-fno-exceptions"]
        tmp = "%s.%d" % (exe, os.getpid())
        subprocess.check_call(["g++", "-O1", "-std=c++17"] + flags + [src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        os.rename(tmp, exe)
    return exe


def build(src, prefix, work, defines=()):
    os.makedirs(work, exist_ok=True)
    bc, js = work + "/" + os.path.basename(src) + ".bc", work + "/" + os.path.basename(src) + ".json"
    # only the entry points of this property are instantiated
    cmd = ["clang++"] + CXXFLAGS + incs() + ["-DVF_ONLY_" + prefix] + ["-D" + d for d in defines] + ["-Xclang", "-fdump-record-layouts-canonical", "-emit-llvm", "-c", src, "-o", bc]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    from vf import layout
    json.dump(layout.ints(r.stdout), open(js + ".ints", "w"))
    r = subprocess.run([irdump(), bc, "chk_" + prefix + "_", js], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    return js, None


def run_entries(job):
    """Worker: interpret one entry and discharge its obligations."""
    js, name = job
    out = {}

    def go():
        from vf import expr as E
        snap = E.snapshot()
        try:
            t0 = time.time()
            images, best = 0, (-1, 0)
            for attempt in range(100):
                # images of the atoms under which the first square roots exist, or as many as can be had soon
                hunt = images < 24 and time.time() - t0 < 4
                use = images if hunt else best[1]
                E.salt[:] = [use] if use else []
                E.strict[0] = 3 if hunt else 0
                if os.environ.get("VF_DEBUG"):
                    print("attempt", name, attempt, use, hunt, best, "%.1f" % (time.time() - t0), file=sys.stderr)
                try:
                    out.update(_run(js, name))
                    break
                except E.NoRoot:  # other images
                    if 3 - E.strict[0] > best[0]:
                        best = (3 - E.strict[0], use)
                    images += 1
                    E.opaque.clear()
                    E.restore(snap)
                except E.Conflict:  # number that root apart
                    E.restore(snap)
            else:
                out.update({"entry": name, "error": "roots"})
        except Exception as e:  # an error of the analyser itself
            import traceback
            out.update({"entry": name, "error": "%s\n%s" % (e, traceback.format_exc()[-500:])})
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out


_ir = {}
LIMIT = float(os.environ.get("VF_LIMIT", "800"))  # seconds


def _run(js, name):
    from vf import expr as E, decide as D, interp as IN
    t0 = time.time()
    if js not in _ir:
        _ir[js] = json.load(open(js))
    I = IN.Interp(_ir[js], repo=REPO)
    I.narrow_opaque = "_f" not in name
    if not I.narrow_opaque:
        D.TOL[0] = E.Fraction(1, 10**7)  # literals of the single-precision instantiation
    res = {"entry": name, "bad": [], "known": [], "obl": 0, "cases": 0, "pruned": 0, "direct": 0, "boundary": 0, "undecided": 0,
           "samples": [], "labels": {}}
    try:
        r = I.run_entry(name)
    except IN.Inconclusive as e:
        return {"entry": name, "inconclusive": "%s" % e, "where": I.where()}
    res["t_interp"] = time.time() - t0
    E.strict[0] = 0
    res["outcomes"] = sorted(r)
    res["instr"] = I.count
    res["functions"] = sorted(set(re.sub(r"<.*", "", (I.funcs[f].dem or f).split("(")[0]) + " @ " +
                                  os.path.relpath(I.funcs[f].file, REPO) + ":" + str(I.funcs[f].line) for f in I.visited))
    res["calls"] = len(I.callsites)
    res["notes"] = sorted(set(I.notes))
    first = None  # time of the first violation: the rest is examined for a while only
    later = [(o, 1) for o in I.obl]
    while later:
        o, phase = later.pop(0)
        kind, lab, idx, a, b, pc, loc = o[:7]
        s = D.Stats()
        res["obl"] += phase == 1
        if first and time.time() - first > 20:
            res["unexamined"] = res.get("unexamined", 0) + 1
            continue
        res["labels"][lab] = res["labels"].get(lab, 0) + (phase == 1)
        try:
            if kind == "true":
                v = D.decide_true(a, pc, stats=s)
            else:
                v = D.decide_eq(a, b, pc, stats=s, phase=phase)
                if v is D.LATER:  # the cheap tests come first for all of them
                    later.append((o, 2))
                    continue
            if v is not None and kind == "known" and D.decide_eq(a, o[8], pc, stats=s) is None:
                res["known"].append((o[7], "%s[%d]" % (lab, idx), I.nodeloc.get(a.id)))
                v = None
        except D.Budget:
            return {"entry": name, "inconclusive": "obligation %s[%d]: too many gate combinations" % (lab, idx), "where": loc}
        res["cases"] += s.cases
        res["pruned"] += s.pruned
        res["direct"] += s.direct
        res["undecided"] += getattr(s, "undecided", 0)
        res["boundary"] += getattr(s, "undecided_boundary", 0)
        if v is None:
            if len(res["samples"]) < 3 and a.k not in "CTN":
                res["samples"].append("%s[%d]: %s" % (lab, idx, E.show(a, 4)[:160]))
            continue
        first = first or time.time()
        if len(res["bad"]) < 12:
            culprit = I.nodeloc.get(v.final[0].id) or I.nodeloc.get(a.id)
            if culprit is None or not culprit.startswith(REPO + "/"):
                culprit = locate(I, v.final[0]) or locate(I, a) or culprit
            res["bad"].append({"obligation": "%s[%d]" % (lab, idx), "at": culprit, "case": v.trace[:8],
                               "got": E.show(v.final[0], 6)[:500], "want": E.show(v.final[1], 6)[:500] if kind != "true" else "true",
                               "point": point(v), "harness": loc})
        else:
            res["more_bad"] = res.get("more_bad", 0) + 1
    res["t"] = time.time() - t0
    return res


def point(v):
    p = getattr(v, "point", None)
    return p and {k: round(x, 6) for k, x in sorted(p.items())}


def locate(I, n):
    """The first /repo construct that produced a part of n."""
    from vf import decide as D
    seen, todo = set(), [n]
    while todo:
        x = todo.pop(0)
        if x.id in seen:
            continue
        seen.add(x.id)
        if I.nodeloc.get(x.id, "").startswith(REPO + "/"):
            return I.nodeloc[x.id]
        todo.extend(D.kids(x))
        if len(seen) > 3000:
            break
    return None


ASSUMPTIONS = [
    "arithmetic is over the reals: floating-point rounding, NaN and infinities are out of scope",
    "denominators and normalised vectors are non-zero; integers do not overflow",
    "distinct objects do not alias; the harness's reference specification states the property",
    "clang's front end lowers C++ faithfully; Eigen and libstdc++ are analysed from their headers, libm and <random> by axioms",
]


def run_all(js, names, t0, limit):
    """Results of the entry points, and those that gave none in time."""
    # every entry point starts from the same clean state, whatever the schedule
    _ir[js] = json.load(open(js))
    _ir[js]["ints"] = json.load(open(js + ".ints"))
    results, todo = [], set(names)
    with mp.get_context("fork").Pool(min(int(os.environ.get("VF_JOBS", "8")), max(1, len(names))), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(run_entries, [(js, n) for n in names], chunksize=1)
        found = None  # after a violation the other entry points get a little more time, not all of it
        while todo:
            left = min(limit - (time.time() - t0), (found + 30 - time.time()) if found else limit)
            try:
                r = it.next(timeout=max(0.1, left))
            except mp.TimeoutError:
                break
            results.append(r)
            todo.discard(r["entry"])
            if r.get("bad"):
                found = found or time.time()
        pool.terminate()
    results.sort(key=lambda r: r["entry"])
    return results, sorted(todo)


def confirm(spec, prop, work, results, again, t0):
    """Alarms on arbitrary contents of a class whose data members have changed: decide them on reachable states."""
    from vf import layout
    changed = layout.changed(CXXFLAGS[:1] + incs(), VERIF)
    if not changed:
        return results, {}
    js, err = build(VERIF + "/harness/" + spec["harness"], prop, work + "/reach", ["VF_REACH_" + c for c in changed])
    if js is None:
        return results, {}
    have = set(r["entry"] for r in results)
    names = json.load(open(js))["functions"]
    names = sorted(n for n in names if n.startswith("chk_" + prop + "_") and not names_decl(names, n) and (n in again or n not in have))
    new, missing = run_all(js, names, t0, LIMIT)
    if any(r.get("bad") or "obl" not in r for r in new):  # an alarm, or no answer: the first verdict stands
        bad = [r for r in new if r.get("bad")]
        return [r for r in results if r["entry"] not in [b["entry"] for b in bad]] + bad, {"states_reached_through_the_interface": changed}
    if missing:
        return results, {}
    return [r for r in results if r["entry"] not in names] + new, {"states_reached_through_the_interface": changed}


def check(prop, entries=None, keep=False, verbose=False):
    import props
    t0 = time.time()
    spec = props.PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = json.load(open(VERIF + "/known_findings.json"))
    listed = {k["id"]: k for k in known["findings"] if k["property"] == prop}
    work = "%s/build/run-%s-%d" % (VERIF, prop, os.getpid())
    os.makedirs(work, exist_ok=True)
    viol, incon, results, knowns = [], [], [], {}
    extra = {}
    try:
        if spec.get("witness"):
            import witness
            extra = witness.run(prop, spec, work, REPO, VERIF, CXXFLAGS + incs(), tier)
            viol += extra.pop("violations")
            incon += extra.pop("inconclusive", [])
        if spec.get("harness"):
            irdump()
            js, err = build(VERIF + "/harness/" + spec["harness"], prop, work, os.environ.get("VF_REACH", "").split())
            if js is None:
                incon.append("the harness does not compile against /repo:\n" + err[:3000])
            else:
                names = json.load(open(js))["functions"]
                names = sorted(n for n in names if n.startswith("chk_" + prop + "_") and not names_decl(names, n))
                if entries:
                    names = [n for n in names if any(e in n for e in entries)]
                results, missing = run_all(js, names, t0, LIMIT)
                if missing and not any(r.get("bad") for r in results):
                    incon.append("no answer in time from " + ", ".join(missing))
                again = [r["entry"] for r in results if r.get("bad") or "inconclusive" in r]
                if again:
                    results, how = confirm(spec, prop, work, results, again, t0)
                    extra.update(how)
    finally:
        if not keep:
            subprocess.run(["rm", "-rf", work])
    for r in results:
        if "error" in r:
            incon.append("%s: internal error %s" % (r["entry"], r["error"]))
        elif "inconclusive" in r:
            incon.append("%s: %s (at %s)" % (r["entry"], r["inconclusive"], r.get("where")))
        else:
            for b in r["bad"]:
                viol.append(dict(b, entry=r["entry"]))
            for fid, ob, at in r["known"]:
                if fid in listed:
                    knowns.setdefault(fid, []).append((r["entry"], ob, at))
                else:
                    viol.append({"entry": r["entry"], "obligation": ob, "at": at, "case": [], "got": "finding %s" % fid, "want": "-"})
    good = [r for r in results if "obl" in r]
    nobl = sum(r["obl"] for r in good) + extra.get("obligations", 0)
    if not entries and not viol and nobl < spec.get("min", 1) and not incon:
        incon.append("only %d obligations were generated (expected at least %d)" % (nobl, spec.get("min", 1)))
    nbad = len(viol)
    fns = sorted(set(f for r in good for f in r["functions"]))
    labels = {}
    for r in good:
        for l, c in r["labels"].items():
            labels[l] = labels.get(l, 0) + c
    cov = {"obligations": nobl, "discharged": nobl - sum(len(r["bad"]) + len(r["known"]) + r.get("more_bad", 0) for r in good) - (nbad if not good else 0),
           "checker_cmd": "python3 /verif/check.py %s" % prop,
           "trusted_base": ["clang 18 front end", "engine/irdump.cpp", "engine/vf (value numbering)", "harness/" + str(spec.get("harness"))],
           "rule": spec["rule"], "entries": {r["entry"]: {"obligations": r["obl"], "instructions": r["instr"], "call_sites": r["calls"],
                                                           "outcomes": r["outcomes"], "seconds": round(r["t"], 2)} for r in good},
           "obligations_by_kind": labels, "instructions_analysed": sum(r["instr"] for r in good),
           "gate_cases": sum(r["cases"] for r in good), "gate_cases_empty": sum(r["pruned"] for r in good),
           "gate_cases_neither_refuted_nor_witnessed": sum(r["undecided"] for r in good),
           "boundary_cases_skipped": sum(r["boundary"] for r in good),
           "functions_of_repo_analysed": fns, "samples": [s for r in good for s in r["samples"]][:6],
           "known_findings": {k: len(v) for k, v in knowns.items()}}
    if spec.get("witness"):
        cov["trusted_base"] = ["clang 18 front end", "llvm-nm", "engine/witness.py", "harness/witness.cpp"]
        cov["explanation"] = ("the compiler's verdict on programs that must be accepted (explicit instantiation of every class template with static "
                              "assertions, every header alone) or refused, and a scan of each header's object for strong definitions")
    cov.update(extra)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": nbad}
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    for k, v in sorted(knowns.items()):
        print("KNOWN-FINDING: property=%s %s: %s (%d obligations, at %s)" % (prop, k, listed[k]["what"], len(v), v[0][2]))
    if verbose:
        for r in good:
            print("  %-40s obl %4d instr %8d cases %5d %.1fs %s" % (r["entry"], r["obl"], r["instr"], r["cases"], r["t"], r["outcomes"]))
    if viol:
        rp = "%s/evidence/%s.violation.json" % (VERIF, prop)
        json.dump({"property": prop, "violations": viol, "rerun": "cd /verif && python3 check.py %s" % prop}, open(rp, "w"), indent=1)
        for v in viol[:8]:
            print("%s: %s: %s" % (v.get("at") or "?", v["entry"], v["obligation"]))
            if v.get("case"):
                print("   when " + "; ".join(v["case"])[:400])
            if v.get("point"):
                print("   e.g. " + ", ".join("%s=%.4g" % kv for kv in v["point"].items())[:300])
            print("   got  %s" % v.get("got"))
            print("   want %s" % v.get("want"))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        for i in incon:
            print("INCONCLUSIVE %s" % i)
        return 1
    if incon:
        for i in incon:
            print("INCONCLUSIVE property=%s %s" % (prop, i))
        return 2
    und = sum(r["undecided"] for r in good)
    if und:
        print("note: %d gate combinations neither refuted nor witnessed" % und)
    print("OK property=%s: %d obligations discharged over %d functions of the repository in %.1f s" % (prop, nobl, len(fns), time.time() - t0))
    return 0


def names_decl(names, n):
    return names[n].get("decl")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--entries")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.exit(check(a.property, a.entries.split(",") if a.entries else None, a.keep, a.v))


if __name__ == "__main__":
    main()
