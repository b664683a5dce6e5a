"""Type-level witnesses: programs that must (or must not) be accepted by the compiler.

* every class template, with every member, for each precision and number of rotors;
* a precision that is not a floating-point type is refused by the library itself;
* every header stands alone and defines nothing that two translation units could not both define.
"""
import glob
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor


def first_error(text):
    m = re.search(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", text, re.M)
    return (m.group(1), int(m.group(2)), m.group(3)) if m else (None, 0, text.strip()[:200])


def where(text, repo):
    """The construct of the repository behind the first error: the error itself or the instantiation path to it."""
    m = re.search(r"^(%s/\S+?):(\d+):\d+:" % re.escape(repo), text, re.M)
    return "%s:%s" % (os.path.relpath(m.group(1), repo), m.group(2)) if m else None


def run(prop, spec, work, repo, verif, flags, tier):
    base = ["clang++"] + [f for f in flags if f not in ("-g",) and not f.startswith("-O")] + ["-Werror=return-stack-address"]
    base = [f for i, f in enumerate(base) if f != "-disable-llvm-passes" and not (f == "-Xclang" and base[i + 1] == "-disable-llvm-passes")]
    src = verif + "/harness/witness.cpp"
    rotors = [1, 2, 3, 4, 5, 6, 7, 8, 12]
    jobs = []
    for t in ("double", "float"):
        for n in rotors:
            jobs.append(("accept", "%s, %d rotors" % (t, n), base + ["-fsyntax-only", "-DVF_T=" + t, "-DVF_N=%d" % n, src]))
    for k in range(1, 9):
        jobs.append(("reject", "integral precision, case %d" % k, base + ["-fsyntax-only", "-DVF_REJECT_%d" % k, src]))
    heads = sorted(glob.glob(repo + "/multirotor_simulator/**/*.hpp", recursive=True) +
                   glob.glob(repo + "/pid_controller/include/**/*.hpp", recursive=True))
    heads = [h for h in heads if "/tests/" not in h and "/build/" not in h and "/benchmark" not in h and "/examples/" not in h]
    for i, h in enumerate(heads):
        jobs.append(("alone", os.path.relpath(h, repo), base + ["-O0", "-x", "c++", "-emit-llvm", "-c", h, "-o", "%s/h%d.bc" % (work, i)]))
    viol, incon = [], []
    if len(heads) < 10:
        incon.append("only %d headers found" % len(heads))

    def one(j):
        kind, what, cmd = j
        r = subprocess.run(cmd, capture_output=True, text=True)
        out = {"kind": kind, "what": what, "rc": r.returncode, "err": r.stderr}
        if kind == "alone" and r.returncode == 0:
            out["strong"] = [l for l in subprocess.run(["llvm-nm-18", "--defined-only", "-C", cmd[-1]], capture_output=True, text=True)
                             .stdout.splitlines() if re.match(r"^\S*\s+[TDBRC] ", l)]
        return out
    with ThreadPoolExecutor(int(os.environ.get("VF_JOBS", "8"))) as ex:
        res = list(ex.map(one, jobs))
    asserts = sum(1 for l in open(src) if l.startswith("static_assert")) * 2 * len(rotors)
    inst = sum(1 for l in open(src) if re.match(r"template (class|struct) [a-z_:A-Z]+[A-Z]\w*<", l)) * 2 * len(rotors)
    for r in res:
        f, line, msg = first_error(r["err"]) if r["rc"] else (None, 0, "")
        loc = where(r["err"], repo) if r["rc"] else None
        if r["kind"] == "accept" and r["rc"]:
            if f == src and not loc and not msg.startswith("static assertion") and "static_assert" not in msg:
                incon.append("witness.cpp:%d: %s" % (line, msg))
            else:
                viol.append({"entry": "accept", "obligation": r["what"], "at": loc or "%s:%d" % (f, line), "case": [], "got": msg, "want": "accepted"})
        elif r["kind"] == "reject":
            if r["rc"] == 0:
                viol.append({"entry": "reject", "obligation": r["what"], "at": "harness/witness.cpp", "case": [], "got": "accepted",
                             "want": "refused by a static assertion"})
            elif "static assertion failed" not in r["err"]:
                viol.append({"entry": "reject", "obligation": r["what"], "at": loc, "case": [], "got": msg, "want": "refused by a static assertion"})
        elif r["kind"] == "alone":
            if r["rc"]:
                viol.append({"entry": "header stands alone", "obligation": r["what"], "at": loc or r["what"], "case": [], "got": msg, "want": "compiles"})
            for s in r.get("strong", []):
                viol.append({"entry": "header in several translation units", "obligation": r["what"], "at": r["what"], "case": [],
                             "got": "strong definition of " + s.split(None, 1)[-1], "want": "inline or template"})
    return {"violations": viol, "inconclusive": incon, "obligations": len(jobs) + asserts + inst,
            "programs_accepted": sum(1 for r in res if r["kind"] == "accept" and r["rc"] == 0),
            "programs_refused": sum(1 for r in res if r["kind"] == "reject" and r["rc"]),
            "headers": [r["what"] for r in res if r["kind"] == "alone"],
            "explicit_instantiations": inst, "type_assertions": asserts}
