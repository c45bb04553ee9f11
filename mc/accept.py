"""C15: which reactions and windows are accepted. Every target number of a neighbourhood of the actinides and of malformed
numbers x boundary energies x both modes through the driver; boundary cases through the C++ and the C library."""
import collections, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, cli, core, levels

SF = {94238, 94240, 94242, 94244, 98252, 98254}
NF = {92233, 92234, 92235, 92238, 93237, 94239, 94241}


def expect(z, e):
    """True accepted, False refused"""
    try:
        e = float(e)
    except ValueError:
        return None
    if e == 0.0:
        return z in SF
    return z in NF and 0.0 < e <= 20.0


def main():
    c = core.Check("C15", "model_checking")
    exe = cli.driver()
    evh = build.program("evh", [build.src("evh.cpp")], "opt")
    capih = build.program("capih", [build.src("capih.cpp"), build.src("capidump.c")], "opt")
    lev = levels.rich()
    cwd = core.leveldir(lev)
    st = collections.Counter()
    near = sorted({1000 * z + a for z in range(88, 101) for a in range(226, 258)} if not c.quick else
                  {x + d for x in SF | NF for d in (-3000, -2000, -1001, -1000, -999, -3, -2, -1, 0, 1, 2, 3, 999, 1000, 1001, 2000)} |
                  {90232, 91231, 92232, 92237, 94236, 95241, 95243, 96242, 96244, 96246, 96248, 98250})
    odd = [0, 1, -1, 92, 235, -92235, -94239, -98252, 92235000, 2147483647, -2147483648, 922350, 1092235, 9223511, 6012]
    allz = sorted(SF | NF)
    # accepted boundary energies are enumerated for supported targets, a few for the others
    efull = ["0", "-0.0", "1e-11", "2.53e-8", "0.5", "5.99", "6.0", "20", "19.999999", "19.99999999999", "20.000001", "20.0000000001", "20.0001", "20.004", "20.05", "20.5", "21", "100", "1e30", "inf", "-1", "-1e-9", "-20", "nan", "1e-30"]
    if not c.quick:
        efull += ["%g" % (0.5 * i) for i in range(1, 46)]
    efew = ["0", "2.53e-8", "14", "20"] if c.quick else ["0", "2.53e-8", "1", "6", "14", "20"]
    runs = []
    for z in near + odd:
        for e in (efull if z in allz or -z in allz else efew):
            for n in (1, -1):
                runs.append((z, e, n, None))
    ewins = ["-1", "0", "1e-9", "1", "1e9", "-2", "-0.5", "-1e-12", "-1.0000001", "nan", "-inf", "inf", "-1e30"]
    for w in ewins:
        for z, e in ((98252, "0"), (92235, "1")):
            runs.append((z, e, 1, w))

    def go(r):
        z, e, n, w = r
        a = ["-i", z, "-e", e, "-n", n] + (["-t", w] if w is not None else [])
        return cli.run(exe, a, lev, timeout=120)
    with ThreadPoolExecutor(core.NPROC) as ex:
        for r, (rc, so, se, files) in zip(runs, ex.map(go, runs)):
            z, e, n, w = r
            st["runs"] += 1
            ok = expect(z, e)
            if w is not None:
                ok = ok and (float(w) >= 0.0 or float(w) == -1.0)
            what = "-i %s -e %s -n %d%s" % (z, e, n, "" if w is None else " -t " + w)
            written = [l for t in files.values() for l in t.splitlines() if not l.startswith("#")]
            heads = sum(t.count("#") for t in files.values())
            st["accepted" if ok else "refused"] += 1
            rep = {"args": what, "rc": rc, "stderr": se[-400:]}
            mode = "events" if n > 0 else "yields"
            if ok:
                if rc != 0:
                    c.violation("refused-%s-%s" % (z, mode), "%s is supported but ended with status %r: %s" % (what, rc, se[-200:]), rep)
                elif not written:
                    c.violation("nothing-%s-%s" % (z, mode), "%s is supported but nothing was written" % what, rep)
            else:
                key = "%s-%s" % (mode, "window" if w is not None else "target" if abs(z) not in SF | NF else "energy")
                if rc is None:
                    c.violation("hang-" + key, "%s is not supported and does not end" % what, rep)
                elif rc < 0:
                    c.violation("crash-" + key, "%s is not supported and is killed by signal %d" % (what, -rc), rep)
                elif rc == 0:
                    c.violation("accepted-" + key, "%s is not supported but ends with success" % what, rep)
                elif not (se.strip() or so.strip()):
                    c.violation("silent-" + key, "%s is refused without a message" % what, rep)
                elif written:
                    c.violation("wrote-" + key, "%s is refused but %d lines of events were written" % (what, len(written)), rep)
            if st["runs"] % 400 == 1:
                c.sample({"run": what, "expected": "accepted" if ok else "refused", "status": rc})

    # library interfaces
    lib = []
    for z in sorted(SF | NF) + [92236, 94243, -92235, -94240, 98250, 95241, 0]:
        for e in [0.0, 2.53e-8, 20.0, 20.000001, 20.000000000000004, 20.003, 5e-324, -5e-324, -1.0, float("nan"), float("inf")] + ([] if c.quick else [1e-11, 6.0, 14.0, 25.0, -1e-9]):
            lib.append((z, e))

    def cpp(j):
        return core.run_batch(evh, [core.event("0", j[0], j[1], "s5")], cwd)[0]

    def cyld(j):
        f = os.path.join(core.scratch(), "ay%d_%r" % j)
        r = core.run_batch(evh, [("Y", "0", j[0], j[1], 2, f, "s5")], cwd)[0]
        r["written"] = os.path.exists(f) and len(open(f).read().split("\n")) > 2
        return r

    def capi(j):
        f = os.path.join(core.scratch(), "aj%d_%r" % j)
        open(f, "w").write("0 %d %r 0.0 -1.0 s5\n" % j)
        p = subprocess.run([capih, "0", f, core.scratch(), core.DATA, "-"], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        so = p.stdout.decode(errors="replace")
        return {"fate": "ok" if '"fate":"ok"' in so else "exit" if '"fate":"exit"' in so else "crash", "rc": p.returncode, "stderr": p.stderr.decode(errors="replace")[-300:]}
    with ThreadPoolExecutor(core.NPROC) as ex:
        for name, fn in (("C++ event", cpp), ("C++ yields", cyld), ("C event", capi)):
            for j, r in zip(lib, ex.map(fn, lib)):
                st["lib"] += 1
                ok = expect(*j)
                if ok and r["fate"] != "ok":
                    c.violation("lib-refused", "%s(%d, %r) is supported: %s" % (name, j[0], j[1], r), {"call": name, "args": j})
                if not ok and (r["fate"] != "exit" or not r.get("rc") or r["rc"] < 0):
                    c.violation("lib-accepted-" + name.replace(" ", "-"), "%s(%d, %r) is not supported: fate %s, status %r" % (name, j[0], j[1], r["fate"], r.get("rc")), {"call": name, "args": j})
                if not ok and r.get("written"):
                    c.violation("lib-wrote", "%s(%d, %r) is not supported but fragments were written" % (name, j[0], j[1]), {"call": name, "args": j})
                if not ok and not r.get("stderr") and name != "C++ event" and name != "C++ yields":
                    c.violation("lib-silent", "%s(%d, %r) is refused without a message" % (name, j[0], j[1]), {"call": name, "args": j})
    if not st["accepted"] or not st["refused"]:
        c.violation("vacuous", "nothing explored")
    c.cov = {"states": st["runs"] + st["lib"], "transitions": st["runs"] + st["lib"], "traces_validated_against_impl": st["runs"] + st["lib"], "accepted": st["accepted"], "refused": st["refused"],
             "library_calls": st["lib"], "exhaustive": True,
             "bound": "%d target numbers, %d energies for supported and %d for other targets, both modes; %d windows; %d library cases x 3 interfaces" % (len(near) + len(odd), len(efull), len(efew), len(ewins), len(lib))}
    c.assumptions = ["one event per accepted run", "level schemes are synthetic"]
    c.finish()


main()
