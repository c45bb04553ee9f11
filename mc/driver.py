"""C08-C10: the command-line driver. Every run configuration of a finite set is executed with the real driver and compared
with a reference built from the library's own events (one fresh execution per seed)."""
import collections, itertools, os, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, cli, core, levels, shapes, space

PROP = sys.argv[1]


def main():
    c = core.Check(PROP, "model_checking")
    exe = cli.driver()
    evh = build.program("evh", [build.src("evh.cpp")], "opt")
    lev = levels.rich()
    cwd = core.leveldir(lev)
    pool = ThreadPoolExecutor(core.NPROC)
    st = collections.Counter()
    states = set()
    S = 1 + 1000 * (c.seed - 1)
    need = {}

    def ref(z, e, w, seeds):
        """the events of the given seeds, each generated through the library interface; memoised"""
        todo = [s for s in seeds if (z, e, w, s) not in need]
        for s, r in zip(todo, core.run_batch(evh, [core.event(s, z, e, "s%d" % s, w) for s in todo], cwd)):
            need[(z, e, w, s)] = r
            st["draws"] += r.get("nd", 0)
        rs = [need[(z, e, w, s)] for s in seeds]
        if any(r["fate"] != "ok" for r in rs):
            raise RuntimeError("no reference events for %r" % ((z, e, w),))
        return rs

    def args(z, e, w, start, n, f=None):
        a = ["-i", z, "-e", repr(e), "-n", n]
        if start is not None:
            a += ["-s", start]
        if w is not None:
            a += ["-t", repr(w)]
        if f:
            a += ["-f", f]
        return a

    def hist(files, name="histories.cgmf.0"):
        return files.get(name)

    if PROP == "C08":
        confs = [(98252, 0.0, -1.0), (94239, 14.0, 1e-8), (92235, 2.53e-8, 1e-6), (92238, 18.0, -1.0)]
        N = 6 if c.quick else 9
        if not c.quick:
            confs += [(z, e, w) for z in core.NF for e in (0.5, 7.0, 20.0) for w in (-1.0, 1e-7)]
        mpi = cli.driver(mpi=True)
        # a run long enough for the progress report (1000 events), cut at its ends and in the middle
        big = (98252, 0.0, 1e-8)
        bigrun = pool.submit(lambda: cli.run(exe, args(*big, 1, 1000), lev, timeout=800))
        for (z, e, w) in confs:
            for base in ([1, 5000] if c.quick else [1, 0, 77, 5000, 2000000]):
                segs = [(i, j) for i in range(N) for j in range(i + 1, N + 1)]
                if base != 1:
                    segs = [s for s in segs if s[0] == 0 or s[1] == N]
                res = dict(zip(segs, pool.map(lambda s: cli.run(exe, args(z, e, w, base + s[0], s[1] - s[0]), lev), segs)))
                st["runs"] += len(segs)
                whole = hist(res[(0, N)][3])
                # events of the whole run, as the text between fragment headers
                try:
                    hd, evs, _ = cli.parse_history(whole or "", True)
                except (cli.Malformed, ValueError) as ex:
                    c.violation("malformed", "run of %d events of %d at %g MeV: %s" % (N, z, e, ex), {"args": args(z, e, w, base, N)})
                    continue
                if len(evs) != N:
                    c.violation("count", "a run of %d events wrote %d" % (N, len(evs)), {"args": args(z, e, w, base, N)})
                for s in segs:
                    rc, so, se, fl = res[s]
                    try:
                        h2, e2, _ = cli.parse_history(hist(fl) or "", True)
                    except (cli.Malformed, ValueError) as ex:
                        c.violation("malformed", "events %r of %d at %g MeV: %s" % (s, z, e, ex), {"args": args(z, e, w, base + s[0], s[1] - s[0])})
                        continue
                    st["events"] += len(e2)
                    st["steps"] += s[1] - s[0]
                    for x in e2:
                        states.add(repr(x))
                    if rc != 0 or h2 != hd:
                        c.violation("run", "events %r of %d at %g MeV: exit status %r, header %r (whole run %r)" % (s, z, e, rc, h2, hd), {"args": args(z, e, w, base + s[0], s[1] - s[0])})
                    if e2 != evs[s[0]:s[1]]:
                        k = next((i for i, (a, b) in enumerate(zip(e2, evs[s[0]:s[1]])) if a != b), "count")
                        c.violation("split", "%d at %g MeV window %g: run -s %d -n %d differs from events %d..%d of the run -s %d -n %d (first at %s)" % (z, e, w, base + s[0], s[1] - s[0], s[0], s[1] - 1, base, N, k),
                                    {"whole": args(z, e, w, base, N), "part": args(z, e, w, base + s[0], s[1] - s[0])})
                # parallel ranks
                for np_, n in ([(2, 3), (3, 2), (6, 1)] if c.quick else [(1, N), (2, 3), (3, 2), (3, 3), (6, 1), (4, 2), (2, 4), (8, 1)]):
                    if base != 1 and (np_, n) != (3, 2):
                        continue
                    rs = cli.mpirun(mpi, np_, args(z, e, w, base, n), lev, timeout=120)
                    st["runs"] += np_
                    st["steps"] += np_ * n
                    cat = []
                    bad = None
                    for r, (rc, so, se, fl) in enumerate(rs):
                        if rc != 0:
                            bad = "rank %d ended with %r" % (r, rc)
                        try:
                            cat += cli.parse_history(hist(fl, "histories.cgmf.%d" % r) or "", r == 0)[1]
                        except (cli.Malformed, ValueError) as ex:
                            bad = "rank %d: %s" % (r, ex)
                    rp = {"ranks": np_, "args": args(z, e, w, base, n)}
                    if bad:
                        c.violation("ranks-file", bad, rp)
                    elif len(cat) != np_ * n:
                        c.violation("ranks-count", "%d ranks x %d events wrote %d events" % (np_, n, len(cat)), rp)
                    elif np_ * n <= len(evs) and cat != evs[:np_ * n]:
                        k = next(i for i, (a, b) in enumerate(zip(cat, evs)) if a != b)
                        c.violation("ranks", "%d at %g MeV: %d ranks x %d events: event %d differs from the serial run" % (z, e, np_, n, k), rp)
                    elif not bad:
                        ev = ref(z, e, w, [base + i for i in range(np_ * n)])
                        for k, m in cli.check_summary(rs[0][1], ev, z, e):
                            c.violation("ranks-" + k, "%d at %g MeV, %d ranks x %d events: %s" % (z, e, np_, n, m), rp)
                        for r in range(1, np_):
                            if "Average" in rs[r][1]:
                                c.violation("ranks-print", "rank %d prints a summary of its own" % r, rp)
        cuts = [(1, 3), (10, 2), (499, 4), (991, 10)]
        parts = [cli.run(exe, args(*big, a, n), lev) for a, n in cuts]
        rc, so, se, fl = bigrun.result()
        st["runs"] += 1 + len(cuts)
        try:
            hd, evs, _ = cli.parse_history(hist(fl) or "", True)
            if rc != 0 or len(evs) != 1000:
                c.violation("count", "a run of 1000 events wrote %d (status %r)" % (len(evs), rc), {"args": args(*big, 1, 1000)})
            for (a, n), (rc, so, se, fl) in zip(cuts, parts):
                if cli.parse_history(hist(fl) or "", True)[1] != evs[a - 1:a - 1 + n]:
                    c.violation("split", "run -s %d -n %d differs from those events of a 1000-event run" % (a, n), {"args": args(*big, a, n)})
            st["events"] += 1000
            states.update(repr(x) for x in evs)
            st["steps"] += 1000
        except (cli.Malformed, ValueError) as ex:
            c.violation("malformed", "run of 1000 events: %s" % ex, {"args": args(*big, 1, 1000)})
        nr = shapes.splits(c, st)
        c.sample({"reaction": confs[0], "N": N, "segments": len(segs), "rank_layouts": nr})
        bound = "%d reaction/window pairs, all %d sub-runs of an N=%d run, ranks x events up to 6 x 1 / 2 x 3 / 3 x 2" % (len(confs), N * (N + 1) // 2, N)
    else:
        # C09, C10: runs over reactions, energies, windows, run lengths and starting events
        runs = []
        k = 0
        es = [2.53e-8, 1.0, 5.0, 8.0, 14.0, 20.0]
        ws = [None, -1.0, 1e-6, 0.0] if PROP == "C10" else [None, -1.0]
        for (z, e) in [(z, 0.0) for z in core.SF] + [(z, e) for z in core.NF for e in es]:
            for w in (ws if not c.quick else [ws[k % len(ws)]]):
                k += 1
                for n in ([[1, 2, 3, 5][k % 4], 4] if c.quick else [1, 2, 3, 5, 12]):
                    runs.append((z, e, w, [None, S, S + 40 + k, 100000 + k][(k + n) % 4], n, [None, "out", "a.b"][k % 3]))
        runs.append((98252, 0.0, -1.0, 7, 60 if c.quick else 400, None))
        runs.append((92238, 19.5, 1e-8, 9, 60 if c.quick else 400, None))
        runs.append((92235, 2.53e-8, None, None, 0, None))

        def one(t):
            z, e, w, s, n, f = t
            return cli.run(exe, args(z, e, w, s, n, f), lev)
        runs.sort(key=lambda t: -t[4])
        byreac = {}
        for t in runs:
            byreac.setdefault((t[0], t[1], 1e-8 if t[2] is None else t[2]), set()).update(range(1 if t[3] is None else t[3], (1 if t[3] is None else t[3]) + t[4]))
        fut = [pool.submit(one, t) for t in runs]
        pre = {k: pool.submit(lambda k=k, v=v: ref(k[0], k[1], k[2], sorted(v))) for k, v in sorted(byreac.items(), key=lambda x: -len(x[1]))}
        for p in pre.values():
            p.result()
        for t, fu in zip(runs, fut):
            z, e, w, s, n, f = t
            rc, so, se, fl = fu.result()
            st["runs"] += 1
            rp = {"args": args(*t)}
            if rc != 0:
                c.violation("status", "%r ended with status %r: %s" % (args(*t), rc, core.trim(se)), rp)
                continue
            wv = 1e-8 if w is None else w
            s0 = 1 if s is None else s
            evs = ref(z, e, wv, range(s0, s0 + n))
            st["events"] += n
            states.update((z, e, wv, i) for i in range(s0, s0 + n))
            st["npre"] += sum(r["npre"] for r in evs)
            st["zero_nu_fragments"] += sum(r["nuf"].count(0) for r in evs)
            name = "%s.0" % (f or ("histories.cgmf" if n > 0 else "yields.cgmf"))
            if PROP == "C10":
                if name not in fl:
                    c.violation("file", "%r wrote %s" % (args(*t), sorted(fl)), rp)
                    continue
                for k, m in cli.compare_history(fl[name], evs, z, e, wv):
                    c.violation(k, "%r: %s" % (args(*t), m), rp)
            elif n:
                for k, m in cli.check_summary(so, evs, z, e):
                    c.violation(k, "%r: %s" % (args(*t), m), rp)
        ns = shapes.output(c, st, PROP)
        c.sample({"runs": [args(*t) for t in runs[:3]], "runs_on_events_of_given_shape": ns})
        bound = "%d driver runs: 13 reactions x %d energies, windows %s, 0-%d events" % (len(runs), len(es), ws, runs[0][4])
    c.cov = {"states": len(states) + st["shape_events"], "transitions": (st["steps"] or st["draws"]) + st["shape_events"], "traces_validated_against_impl": st["runs"], "driver_runs": st["runs"],
             "events_compared": st["events"], "pre_fission_neutrons": st["npre"], "fragments_without_neutrons": st["zero_nu_fragments"], "exhaustive": True, "bound": bound,
             "standin_runs": st["shape_runs"], "standin_events": st["shape_events"]}
    c.assumptions = c.notes + ["level schemes are synthetic", "MPI is a stand-in: ranks are processes and collectives exchange files"]
    c.finish()


main()
