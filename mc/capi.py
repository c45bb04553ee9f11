"""C14: the C interface against the C++ interface: every enumerated event through both in one process, and every sequence of
generate / clear / yields / C++-event / release operations up to a depth."""
import collections, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, core, levels, space

ALPHA = [("g0", 92235, 14.0, 0.0, -1.0, "s22"), ("g1", 98252, 0.0, 1.5, 1e-8, "s24"), ("g2", 92238, 18.0, 0.0, -1.0, "s23"),
         ("n3", 94240, 0.0, 0.0, -1.0, "s26"), ("y4", 94239, 7.0, 5, "-", "s31"), ("c",), ("x",)]


def declared():
    """names declared in the C header"""
    t = open(os.path.join(core.REPO, "libcgmf/include/cgmfEvents_capi.h")).read()
    t = re.sub(r"//.*|/\*.*?\*/", "", t, flags=re.S) if False else re.sub(r"/\*.*?\*/", "", re.sub(r"//[^\n]*", "", t), flags=re.S)
    return sorted(set(re.findall(r"\b(\w+)\s*\([^;{}]*\)\s*;", t)))


def main():
    c = core.Check("C14", "model_checking")
    st = collections.Counter()
    states = set()
    cwd = core.leveldir(levels.rich())
    src = [build.src("capih.cpp"), build.src("capidump.c")]
    env = dict(os.environ, **core.ASAN_ENV)
    # every declared function can be called from C: a C program that takes the address of each
    names = declared()
    d = core.scratch()
    prog = os.path.join(d, "linkall.c")
    open(prog, "w").write('#include "cgmfEvents_capi.h"\nvoid *volatile all[] = {\n%s};\nint main(void) { return all[0] == 0; }\n' % "".join("  (void *)%s,\n" % n for n in names))
    try:
        build.program("linkall", [prog], "opt")
    except build.BuildError as ex:
        m = re.search(r"(undefined reference[^\n]*|error:[^\n]*)", str(ex))
        c.violation("link", "a C program using every function the header declares does not build: " + (m.group(0) if m else str(ex)[-300:]), {"program": open(prog).read()})
    exe = build.program("capih", src, "opt")

    # breadth
    eg = [2.53e-8, 1.0, 7.0, 14.0, 20.0] if c.quick else space.EGRID
    jobs = []
    ns = 12 if c.quick else 20
    for z, e in space.configs(eg):
        for s in range(ns):
            jobs.append("%d %d %r %r %r s%d\n" % (len(jobs), z, e, [0.0, 3.5][s % 2], [-1.0, 1e-8, 0.0][s % 3], 1000 * c.seed + s))

    def go(i):
        mine = jobs[i::core.NPROC * 2]
        f = os.path.join(d, "capijobs%d" % i)
        open(f, "w").write("".join(mine))
        p = subprocess.run([exe, "0", f, d, core.DATA, "-"], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return mine, p
    with ThreadPoolExecutor(core.NPROC) as ex:
        for mine, p in ex.map(go, range(core.NPROC * 2)):
            rs = [json.loads(l) for l in p.stdout.decode(errors="replace").splitlines()]
            for j, r in zip(mine, rs):
                st["events"] += 1
                st["values"] += r.get("values", 0)
                states.add(j)
                if r.get("bad"):
                    c.violation("value-" + re.sub(r"[^A-Za-z].*", "", r["bad"].split(" / C ")[-1]), "event %r: %s" % (j.strip(), r["bad"]), {"job": j})
                if r["fate"] != "ok":
                    c.violation("fate", "event %r: %s" % (j.strip(), r["fate"]), {"job": j})
            if len(rs) < len(mine) or p.returncode:
                c.violation("died", "process ended with %d at event %r: %s" % (p.returncode, mine[min(len(rs), len(mine) - 1)].strip(), core.trim(p.stderr.decode(errors="replace"))), {"job": mine[min(len(rs), len(mine) - 1)]})

    c.cov = {}
    if os.environ.get("VERIF_TIMES"):
        print("breadth", time.time() - c.t0)
    # sequences
    f = os.path.join(d, "alpha")
    open(f, "w").write("".join(" ".join(repr(x) if isinstance(x, float) else str(x) for x in o) + "\n" for o in ALPHA))
    desc = []
    for variant, depth in (("opt", 3), ("asan", 2)) if c.quick else (("opt", 5), ("asan", 4)):
        t0 = time.time()
        ex_ = build.program("capih", src, variant)
        names_ = [o[0] for o in ALPHA]
        firsts = ["%s,%s" % (a, b) for a in names_ for b in names_] if depth > 3 else names_

        def seq(first):
            return first, subprocess.run([ex_, str(depth), f, d, core.DATA, first], cwd=cwd, env=dict(env, EVH_CPU="300"), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        seen = set()
        n = 0
        with ThreadPoolExecutor(core.NPROC) as pool:
            for first, p in pool.map(seq, firsts):
                for l in p.stdout.decode(errors="replace").splitlines():
                    try:
                        r = json.loads(l)
                    except ValueError:
                        continue
                    if "path" not in r:
                        c.violation("seq-" + r.get("fate", "?"), "sequence %r: %s" % (r.get("id"), r.get("fate")), {"variant": variant, "sequence": r.get("id"), "alphabet": ALPHA})
                        continue
                    if r["path"] in seen:
                        continue
                    seen.add(r["path"])
                    n += 1
                    st["nodes"] += 1
                    if r.get("died"):
                        c.violation("seq-died", "%s build: sequence %r: %s %s" % (variant, r["path"], r["died"], core.trim(p.stderr.decode(errors="replace"))), {"variant": variant, "sequence": r["path"], "alphabet": ALPHA})
                    elif r["bad"]:
                        c.violation("seq-differs", "%s build: after the sequence %r: %s" % (variant, r["path"], r["bad"]), {"variant": variant, "sequence": r["path"], "alphabet": ALPHA})
                    if len(r["path"].split()) == depth:
                        c.sample({"sequence": r["path"], "event held": r.get("live")})
        if os.environ.get("VERIF_TIMES"):
            print(variant, time.time() - t0)
        desc.append("%s: all %d sequences of %d operations to depth %d" % (variant, n, len(ALPHA), depth))
    if not st["events"] or not st["nodes"]:
        c.violation("vacuous", "nothing explored")
    c.cov = {"states": len(states) + st["nodes"], "transitions": st["nodes"] + st["events"], "traces_validated_against_impl": st["nodes"] + st["events"], "values_compared": st["values"],
             "functions_declared": len(names), "exhaustive": True, "bound": "%d events (13 targets, %d energies, %d streams); %s" % (st["events"], len(eg), ns, "; ".join(desc))}
    c.assumptions = ["the harness calls the C functions from a C translation unit", "level schemes are synthetic"]
    c.finish()


main()
