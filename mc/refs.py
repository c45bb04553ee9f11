"""C20: every event of every shipped reference history, regenerated with the driver (serial and two ranks) and with the library."""
import collections, glob, os, re, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, cli, core, levels

TESTS = os.path.join(core.REPO, "utils/cgmf/tests")


def args_of(d, var):
    t = open(os.path.join(d, "CMakeLists.txt")).read()
    m = re.search(r"set\(%s\s+([^)]*)\)" % re.escape(var), t)
    return m.group(1).split()


def opt(args, o, default=None):
    return args[args.index(o) + 1] if o in args else default


def main():
    c = core.Check("C20", "model_checking")
    st = collections.Counter()
    states = set()
    exe, mpi = cli.driver(), cli.driver(mpi=True)
    lev = levels.stub()
    dirs = sorted(glob.glob(os.path.join(TESTS, "*-events")))

    def close(a, b):
        return abs(a - b) <= 1.01e-3 + 2e-6 * abs(b)

    def compare(name, ref, got, how, args):
        if len(ref) != len(got):
            c.violation("count-" + name, "%s (%s): %d events instead of %d" % (name, how, len(got), len(ref)), {"args": args})
            return
        for i, (a, b) in enumerate(zip(ref, got)):
            st["events"] += 1
            states.add((name, i))
            for f in (0, 1):
                x, y = a[f], b[f]
                for k in ("A", "Z", "J", "P", "npre"):
                    st["values"] += 1
                    if x[k] != y[k]:
                        c.violation("%s-%s" % (k, name), "%s (%s) event %d fragment %d: %s = %r instead of %r" % (name, how, i, f, k, y[k], x[k]), {"args": args, "event": i})
                for k in ("U", "KE"):
                    st["values"] += 1
                    if not close(x[k], y[k]):
                        c.violation("%s-%s" % (k, name), "%s (%s) event %d fragment %d: %s = %r instead of %r" % (name, how, i, f, k, y[k], x[k]), {"args": args, "event": i})
                for k, u, v in [("momentum", x["pre"], y["pre"])] + [("prefission", p, q) for p, q in zip(x["p"], y["p"])]:
                    st["values"] += len(u)
                    if len(u) != len(v) or not all(close(p, q) for p, q in zip(u, v)):
                        c.violation("%s-%s" % (k, name), "%s (%s) event %d fragment %d: %s %r instead of %r" % (name, how, i, f, k, v, u), {"args": args, "event": i})
        c.sample({"reference": name, "run": how, "events": len(ref), "first": [got[0][0]["A"], got[0][0]["Z"], got[0][0]["KE"]]})

    def job(d):
        name = os.path.basename(d)[:-7]
        hd, ref, _ = cli.parse_history(open(os.path.join(d, "histories.cgmf.parallel.0.reference")).read())
        hd1, ref1, _ = cli.parse_history(open(os.path.join(d, "histories.cgmf.parallel.1.reference")).read(), header=False)
        a, m = args_of(d, "args"), args_of(d, "args.mpi")
        r = cli.run(exe, a, lev, timeout=400)
        q = cli.mpirun(mpi, 2, m, lev)
        return name, hd, ref, ref1, a, r, m, q
    core.leveldir(lev)
    with ThreadPoolExecutor(core.NPROC) as ex:
        for name, hd, ref, ref1, a, r, m, q in ex.map(job, dirs):
            try:
                if r[0] != 0:
                    c.violation("run-" + name, "%s: status %r %s" % (name, r[0], r[2][-200:]), {"args": a})
                    continue
                h, got, _ = cli.parse_history(r[3][opt(a, "-f") + ".0"])
                if h != hd:
                    c.violation("header-" + name, "%s: header %r instead of %r" % (name, h, hd), {"args": a})
                compare(name, ref + ref1, got, "serial", a)
                got = []
                for k, x in enumerate(q):
                    if x[0] != 0:
                        raise cli.Malformed("rank %d: status %r %s" % (k, x[0], x[2][-200:]))
                    got.append(cli.parse_history(x[3][opt(m, "-f") + ".%d" % k], header=k == 0)[1])
                compare(name, ref, got[0], "rank 0", m)
                compare(name, ref1, got[1], "rank 1", m)
            except (cli.Malformed, KeyError) as x:
                c.violation("format-" + name, "%s: %s" % (name, x), {"args": a})
    if len(dirs) < 20 or st["events"] < 1000:
        c.violation("vacuous", "%d references, %d events" % (len(dirs), st["events"]))
    c.cov = {"states": len(states), "transitions": st["events"], "traces_validated_against_impl": st["events"], "values_compared": st["values"], "exhaustive": True,
             "bound": "all %d shipped reference histories, every event, serial and on two ranks" % len(dirs)}
    c.assumptions = ["the de-excitation part of the references depends on the undistributed level file and is not compared", "MPI is replaced by a process-based stand-in"]
    c.finish()


main()
