#!/usr/bin/env python3
"""Static-analysis driver:  check.py <PROPERTY> [--tier quick|thorough]

exit 0  every obligation of the property is discharged on /repo's current tree
exit 1  + "VIOLATION property=<id> replay=<path>"  an obligation is open/refuted
exit 2  the check could not be carried out (vanished anchor, tool failure ...)
"""
import argparse, fcntl, glob, hashlib, importlib.util, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CISTA_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LLVM = "/usr/lib/llvm-18"
CLANG = "clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
CFLAGS = ["-std=c++17", "-O2", "-gline-tables-only", "-Xclang", "-disable-llvm-passes",
          "-fno-access-control", "-fno-strict-aliasing", "-fwrapv",
          "-fno-delete-null-pointer-checks", "-w"]


class Inconclusive(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_engine():
    src = [os.path.join(VERIF, "engine", f) for f in ("oblig.cc", "absint.h", "lin.h")]
    h = hashlib.sha256()
    for s in src:
        h.update(open(s, "rb").read())
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "oblig-" + h.hexdigest()[:16])
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        tmp = exe + ".tmp%d" % os.getpid()
        r = sh([CLANG, "-std=c++17", "-O2", "-fno-rtti", "-w", "-I" + LLVM + "/include",
                "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
                src[0], "-o", tmp, "-L" + LLVM + "/lib", "-lLLVM-18"])
        if r.returncode != 0:
            raise Inconclusive("engine build failed:\n" + r.stderr[-4000:])
        os.rename(tmp, exe)
        for old in glob.glob(os.path.join(BUILD, "oblig-*")):
            if old != exe and ".tmp" not in old:
                try:
                    os.unlink(old)
                except OSError:
                    pass
    return exe


def compile_tu(src, work):
    """-> (bitcode path, None) | (None, violation) ; raises Inconclusive"""
    bc = os.path.join(work, os.path.basename(src)[:-3] + ".bc")
    extra = []
    for m in re.finditer(r"^// FLAGS: (.*)$", open(src).read(), re.M):
        extra += m.group(1).replace("@H", os.path.join(VERIF, "harness")).split()
    r = sh([CLANG] + CFLAGS + extra + ["-I" + REPO + "/include", "-I" + VERIF + "/harness", "-c", "-emit-llvm", src, "-o", bc])
    if r.returncode == 0:
        return bc, []
    viol = []
    for m in re.finditer(r"^(.*?):(\d+):\d+: error: (static assertion failed[^\n]*OBLIGATION: ([^\n]*))", r.stderr, re.M):
        viol.append({"root": os.path.basename(m.group(1)) + ":" + m.group(2), "text": m.group(4).strip().strip('"'),
                     "at": m.group(1) + ":" + m.group(2), "trace": r.stderr[:6000].splitlines()})
    if viol:
        return None, viol
    raise Inconclusive("harness %s no longer compiles against the tree:\n%s" % (src, r.stderr[:6000]))


def engine_run(exe, bc, jobs, tier, src):
    opts = [o for m in re.finditer(r"^// ENGINE: (.*)$", open(src).read(), re.M) for o in m.group(1).split()]
    steps, tmo = ("100000", "240") if tier == "quick" else ("1000000", "1500")
    r = sh([exe, "-j", str(jobs), "-max-steps", steps, "-root-timeout", tmo] + opts + [bc])
    if r.returncode != 0:
        raise Inconclusive("engine failed on %s: %s" % (bc, r.stderr[-2000:]))
    return [json.loads(l) for l in r.stdout.splitlines()]


def roots_in_source(src):
    """number of obligations a harness declares, as a lower bound against vacuity"""
    t = open(src).read()
    m = re.search(r"^// ROOTS: (\d+)", t, re.M)
    return int(m.group(1)) if m else 1


def load_known():
    ks = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) root=(\S+) text=\"([^\"]*)\"\s*(.*)", l.strip())
            if m:
                ks.append(m.groups())
    return ks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    t0 = time.time()
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    ent = next((c for c in man["checks"] if c["property"] == a.prop), None)
    level = ent["level"] if ent else "other"
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    work = os.path.join(BUILD, "work-%s-%d" % (a.prop, os.getpid()))
    os.makedirs(work, exist_ok=True)

    obligations, discharged, violations, functions, samples = 0, 0, [], set(), []
    stats = {"abstract_steps": 0, "feasibility_queries": 0, "loops_summarised": 0, "ir_instructions": 0}
    inconc = []
    rule_info = []
    try:
        srcs = sorted(glob.glob(os.path.join(VERIF, "harness", a.prop + ".cc")) +
                      glob.glob(os.path.join(VERIF, "harness", a.prop + "_*.cc")))
        if a.tier == "thorough":
            srcs += sorted(glob.glob(os.path.join(VERIF, "harness", "thorough", a.prop + "*.cc")))
        rules = os.path.join(VERIF, "rules", a.prop + ".py")
        if not srcs and not os.path.exists(rules):
            raise Inconclusive("no harness and no rule for " + a.prop)
        exe = build_engine()
        with ThreadPoolExecutor(8) as ex:
            comp = list(ex.map(lambda s: compile_tu(s, work), srcs))
        for src, (bc, viol) in zip(srcs, comp):
            obligations += len(viol)
            violations += viol
        todo = [(s, bc) for s, (bc, _) in zip(srcs, comp) if bc]
        # static_assert witnesses are obligations too
        for s, _ in todo:
            n = len(re.findall(r"OBLIGATION: ", open(s).read()))
            obligations += n
            discharged += n
        par = max(1, min(8, len(todo)))
        with ThreadPoolExecutor(par) as ex:
            outs = list(ex.map(lambda x: engine_run(exe, x[1], max(2, 8 // par), a.tier, x[0]), todo))
        for (src, _), rs in zip(todo, outs):
            if len(rs) < roots_in_source(src):
                raise Inconclusive("%s: %d obligations found, at least %d expected" % (src, len(rs), roots_in_source(src)))
            for r in rs:
                obligations += 1
                where = os.path.relpath(src, VERIF) + ":" + r["root"]
                if r.get("failed"):
                    inconc.append(where + ": engine gave up (time)")
                    continue
                for f in r["functions"]:
                    functions.add(re.sub(r".*/include/cista", "include/cista", f.split("@")[1]) + " " + f.split("@")[0])
                stats["abstract_steps"] += r["steps"]
                stats["feasibility_queries"] += r["queries"]
                stats["loops_summarised"] += r["loops"]
                stats["ir_instructions"] += r["instructions"]
                if len(samples) < 6:
                    samples.append({k: r[k] for k in ("root", "instructions", "residual_targets", "steps", "queries", "loops", "reached")})
                if not r["functions"] and "nofn" not in r["root"]:
                    raise Inconclusive(where + ": no function of the repository is analysed")
                definite = [o for o in r["open"] if o["trace"] != ["(analysis budget exhausted)"]]
                for o in definite:
                    violations.append({"root": r["root"], "text": o["text"], "at": o["at"], "trace": o["trace"]})
                if definite:
                    continue
                if r["exhausted"] or r["open"]:
                    inconc.append(where + ": analysis budget exhausted")
                    continue
                if not r["reached"]:
                    violations.append({"root": r["root"], "text": "no execution completes: every case the obligation covers is rejected or aborts", "at": where, "trace": []})
                    continue
                discharged += 1
        if os.path.exists(rules):
            spec = importlib.util.spec_from_file_location("rule_" + a.prop, rules)
            mod = importlib.util.module_from_spec(spec)
            sys.path.insert(0, os.path.join(VERIF, "rules"))
            spec.loader.exec_module(mod)
            res = mod.run(REPO, work, a.tier, Inconclusive)
            obligations += res["obligations"]
            discharged += res["obligations"] - len(res["violations"])
            violations += res["violations"]
            functions |= set(res.get("functions", []))
            samples += res.get("samples", [])[:6]
            rule_info.append(res.get("rule", ""))
    except Inconclusive as e:
        inconc.append(str(e))

    known = load_known()
    new, seen = [], []
    for v in violations:
        k = next((k for k in known if k[0] == a.prop and k[1] == v["root"] and k[2] == v["text"]), None)
        (seen if k else new).append(v)
    subprocess.run(["rm", "-rf", "--", work])

    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": {
              "obligations": obligations, "discharged": discharged,
              "checker_cmd": "python3 check.py %s --tier %s" % (a.prop, a.tier),
              "trusted_base": ["clang 18 front end and LLVM 18 -O2 scalar passes (semantics-preserving)",
                               "engine/absint.h + engine/lin.h (abstract interpreter, exact linear arithmetic)",
                               "harness/*.cc (statement of the obligations, environment models)"],
              "repo_functions_analysed": sorted(functions), "functions": len(functions),
              "rule": "; ".join(rule_info) or "every an_violation target (and, for ob_accept*, every throw) unreachable in the abstract semantics for all inputs; every root has a reachable completion marker",
              "explanation": "static: each obligation root is inlined to one IR function with the repository code and analysed for all inputs; nothing is executed",
              "samples": samples, "open": [{k: v[k] for k in ("root", "text", "at")} for v in violations],
              "inconclusive": inconc, **stats},
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    json.dump(ev, open(os.path.join(evdir, a.prop + ".json"), "w"), indent=1)

    for v in seen:
        print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, v["root"], v["text"]))
    print("%s: %d obligations, %d discharged, %d functions of the repository analysed, %.1fs" % (a.prop, obligations, discharged, len(functions), time.time() - t0))
    if new:
        rp = os.path.join(evdir, a.prop + ".violation.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write("OPEN %s: %s\n  at %s\n" % (v["root"], v["text"], v["at"]))
                for t in v["trace"][-200:]:
                    f.write("    " + t + "\n")
        for v in new[:20]:
            print("open: %s: %s\n      at %s" % (v["root"], v["text"], v["at"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        sys.exit(1)
    if inconc:
        for i in inconc:
            print("INCONCLUSIVE: " + i, file=sys.stderr)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    if sys.argv[1:] == ["--build"]:
        print(build_engine())
    else:
        main()
