"""C21: every data file missing, one and two at a time (and every data directory problem), for every reaction class and mode.
A run with files missing must either end with an error message and a failing status, or give exactly the output of the run
with all files (the missing file was not needed)."""
import collections, itertools, os, sys, threading
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, cli, core, levels


def main():
    c = core.Check("C21", "model_checking")
    exe = cli.driver()
    st = collections.Counter()
    lev = os.path.join(core.leveldir(levels.rich()), "discreteLevels.dat")
    files = sorted(os.listdir(core.DATA)) + ["discreteLevels.dat"]
    lock = threading.Lock()
    root = os.path.join(core.scratch(), "data")
    os.makedirs(root)

    def farm(missing):
        d = os.path.join(root, "-".join(str(files.index(m)) for m in missing) or "full")
        with lock:
            if os.path.isdir(d):
                return d
            os.makedirs(d)
            for f in files:
                if f not in missing:
                    os.symlink(lev if f == "discreteLevels.dat" else os.path.join(core.DATA, f), os.path.join(d, f))
        return d
    # the first event classes: no pre-fission neutrons / pre-fission / pre-equilibrium, and both modes
    confs = [(98252, "0.0", 2), (92235, "2.53e-8", 2), (94239, "14.0", 3), (92238, "20.0", 3), (98252, "0.0", -60), (92235, "14.0", -60), (94241, "20.0", -60)]
    if not c.quick:
        confs += [(z, "0.0", n) for z in core.SF for n in (2, -60)] + [(z, e, n) for z in core.NF for e in ("1.0", "8.0", "18.0") for n in (2, -60)]

    def go(job):
        conf, missing, how = job
        z, e, n = conf
        a = ["-i", z, "-e", e, "-n", n, "-s", 7]
        if how == "env":
            return cli.run(exe, a, None, data=farm(missing), timeout=60)
        if how == "opt":
            return cli.run(exe, a + ["-d", farm(missing)], None, data=None, timeout=60)
        if how == "slash":
            return cli.run(exe, a + ["-d", farm(missing) + "/"], None, data=None, timeout=60)
        if how == "noenv":
            return cli.run(exe, a, None, data=os.path.join(core.scratch(), "absent"), timeout=60)
        if how == "noopt":
            return cli.run(exe, a + ["-d", os.path.join(core.scratch(), "absent")], None, data=None, timeout=60)

    if c.quick:
        confs += [(z, "0.0", -60) for z in core.SF if z != 98252] + [(z, "1.0" if z % 2 else "17.0", -60) for z in core.NF]
    full = {}
    with ThreadPoolExecutor(core.NPROC) as ex:
        for conf, r in zip(confs, ex.map(lambda q: go((q, (), "env")), confs)):
            full[conf] = r
            if r[0] != 0 or not any(len(t) > 100 for t in r[3].values()):
                c.violation("full", "the run %r with all data files fails: status %r %s" % (conf, r[0], r[2][-200:]), {"run": conf})
        needed = collections.defaultdict(set)
        jobs = [(q, (f,), h) for q in confs for f in files for h in ("env", "opt")]
        jobs += [(q, (), h) for q in confs for h in ("opt", "slash")]
        jobs += [(q, tuple(files), "env") for q in confs]
        jobs += [(q, (), h) for q in confs for h in ("noenv", "noopt")]

        def judge(jobs):
            for (conf, missing, how), (rc, so, se, out) in zip(jobs, ex.map(go, jobs)):
                st["runs"] += 1
                what = "run %s with %s missing (%s)" % (" ".join(map(str, conf)), " and ".join(missing) if len(missing) < 3 else "every file", how) if how in ("env", "opt", "slash") else "run %s with a data directory that does not exist (%s)" % (" ".join(map(str, conf)), how)
                rep = {"run": conf, "missing": missing, "how": how, "rc": rc, "stderr": se[-300:]}
                key = "-".join(missing) if 0 < len(missing) < 3 else "all" if missing else how
                if rc == 0:
                    st["unneeded"] += 1
                    if how.startswith("no") or len(missing) > 2:
                        c.violation("ok-" + key, "%s ends with success" % what, rep)
                    elif (so, out) != (full[conf][1], full[conf][3]):
                        c.violation("wrong-" + key, "%s ends with success and other results than with all files" % what, rep)
                elif rc is None:
                    c.violation("hang-" + key, "%s does not end" % what, rep)
                elif rc < 0 or rc in (98, 99):
                    c.violation("crash-" + key, "%s is killed by signal %d" % (what, -rc), rep)
                else:
                    st["failed"] += 1
                    if not missing and how in ("opt", "slash"):
                        c.violation("refused-" + how, "%s fails although all files are there: %s" % (what, se[-200:]), rep)
                    if not (se + so).strip():
                        c.violation("silent-" + key, "%s fails without a message" % what, rep)
                    lines = [l for t in out.values() for l in t.splitlines() if not l.startswith("#")]
                    if lines:
                        # events written before the failure have to be events of the full run
                        ref = [l for t in full[conf][3].values() for l in t.splitlines() if not l.startswith("#")]
                        if ref[:len(lines) - 1] != lines[:-1]:
                            c.violation("events-" + key, "%s writes events that differ from those with all files before failing" % what, rep)
                    if len(missing) == 1:
                        needed[conf].add(missing[0])
                if st["runs"] % 211 == 1:
                    c.sample({"run": what, "status": rc, "message": (se or so)[-120:]})
        judge(jobs)
        # pairs: only pairs of needed files can behave differently from the single ones
        allneeded = sorted(set().union(*needed.values())) if needed else []
        pairs = list(itertools.combinations(allneeded, 2))
        judge([(q, p, "env") for q in (confs[:1] + confs[3:4] + confs[6:7] if c.quick else confs) for p in pairs])
        # the single and pair results are complete if an unneeded file never matters together with another
        judge([(confs[3], (f, g), "env") for f in files if f not in allneeded for g in files if g != f] if not c.quick else [])
        # every single opening of a data file fails, at every point of the run (a file may be read again for a later event)
        shim = build.shim("failopen")
        d = farm(())

        def fail(job):
            (z, e, n), k = job
            cnt = os.path.join(core.scratch(), "cnt_%d_%s_%d_%d" % (z, e, n, k))
            r = cli.run(exe, ["-i", z, "-e", e, "-n", n, "-s", 7], None, data=d, timeout=60, env={"LD_PRELOAD": shim, "FAILOPEN": str(k), "FAILOPEN_DIR": d, "FAILOPEN_COUNT": cnt})
            rd = lambda p: open(p).read().strip() if os.path.exists(p) else ""
            return r, int(rd(cnt) or 0), rd(cnt + ".name")
        pts = []
        for conf, (r, n, _) in zip(confs, ex.map(fail, [(q, 0) for q in confs])):
            if (r[0], r[1], r[3]) != (full[conf][0], full[conf][1], full[conf][3]):
                continue  # the stand-in for the C library's open does not fit this build
            pts += [(conf, k) for k in range(1, n + 1)]
        for (conf, k), (r, n, name) in zip(pts, ex.map(fail, pts)):
            st["openings"] += 1
            rc, so, se, out = r
            f = os.path.basename(name)
            what = "run %s whose opening no. %d of a data file (%s) fails" % (" ".join(map(str, conf)), k, f)
            rep = {"run": conf, "opening": k, "file": f, "rc": rc, "stderr": se[-300:]}
            if rc is None:
                c.violation("open-hang-" + f, what + " does not end", rep)
            elif rc < 0 or rc in (98, 99):
                c.violation("open-crash-" + f, "%s is killed by signal %d" % (what, -rc), rep)
            elif rc == 0:
                if (so, out) != (full[conf][1], full[conf][3]):
                    c.violation("open-wrong-" + f, what + " ends with success and other results than with all files", rep)
            else:
                if not (se + so).strip():
                    c.violation("open-silent-" + f, what + " fails without a message", rep)
                lines = [l for t in out.values() for l in t.splitlines() if not l.startswith("#")]
                ref = [l for t in full[conf][3].values() for l in t.splitlines() if not l.startswith("#")]
                if lines and ref[:len(lines) - 1] != lines[:-1]:
                    c.violation("open-events-" + f, what + " writes other events before failing", rep)
    if len(allneeded) < 5:
        c.violation("vacuous", "only %r are needed" % (allneeded,))
    c.cov = {"states": st["runs"] + st["openings"], "transitions": st["runs"] + st["openings"], "traces_validated_against_impl": st["runs"] + st["openings"], "failed_with_message": st["failed"], "not_needed": st["unneeded"], "files": len(files),
             "files_needed": len(allneeded), "failed_openings": st["openings"], "needed": allneeded, "exhaustive": True,
             "bound": "%d files one at a time (%d run classes, 2 ways to give the directory), all %d pairs of needed files, absent directory" % (len(files), len(confs), len(pairs))}
    c.assumptions = ["a missing file is a file that does not exist", "level schemes are synthetic"]
    c.finish()


main()
