"""C13: yields mode and the yields reader.
 A  driver runs: N pairs, prefixes, the first pair is event mode's first event; the run resumed at any event with the rest of
    the random stream continues identically; conservation of every pair; a file that cannot be written.
 B  reader: every small yields file over an alphabet of fragment pairs, every event limit, accessors and summary table."""
import sys
sys.dont_write_bytecode = True
import os
VPY = "/opt/vp/venv/bin/python"
if os.path.exists(VPY) and sys.executable != VPY and os.environ.get("TK_REEXEC") is None:
    os.environ["TK_REEXEC"] = "1"
    os.execv(VPY, [VPY] + sys.argv)
elif os.environ.get("TK_REEXEC") is None:
    try:
        import numpy
    except ImportError:
        os.environ["TK_REEXEC"] = "1"
        os.execvp("python3-vt", ["python3-vt"] + sys.argv)
import collections, itertools, json, math, subprocess, warnings
warnings.simplefilter("ignore")
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, cli, core, levels, oracle, space


def first_matches(r, pr):
    """the event-mode report r starts from the pair pr"""
    for f in (0, 1):
        z, a, ke, u, j, p, px, py, pz = pr[f]
        if (z, a, p) != (r["Z"][f], r["A"][f], r["par"][f]) or j != r["J"][f]:
            return "fragment %d: Z A J parity %r, event mode %r" % (f, (z, a, j, p), (r["Z"][f], r["A"][f], r["J"][f], r["par"][f]))
        for x, y, n in [(r["KE"][f], ke, "KE"), (r["U"][f], u, "U")] + [(r["pre"][f][k], (px, py, pz)[k], "momentum") for k in range(3)]:
            if abs(x - y) > 1e-5 * max(abs(x), 1e-3):
                return "fragment %d: %s %r, event mode %r" % (f, n, y, x)
    return None


# ------------------------------------------------------------------ reader
PAIRS = [((44, 115, "103.915", "22.1845", "10.5", 1, "4157.66", "121.856", "-2224.46"), (54, 137, "87.2299", "11.2793", "3.5", 1, "-4157.66", "-121.856", "2224.46")),
         ((40, 98, "98.8379", "18.9856", "10", 1, "-3988.24", "823.451", "-1205.72"), (52, 137, "70.677", "10.7569", "3.5", -1, "3930.75", "-825.136", "1372.97")),
         ((46, 118, "84.1", "0.00123", "0", -1, "1e-05", "0", "-0"), (46, 118, "84.1", "31", "25", -1, "0", "-3e-07", "4321")),
         ((38, 96, "96.0628", "24.1221", "22", 1, "-2711.29", "-2715.09", "-1491.64"), (56, 144, "64.0239", "33.1538", "17", -1, "2711.29", "2715.09", "1665.03")),
         ((30, 76, "108", "5", "3", 1, "100", "200", "300"), (62, 160, "50.5", "7.25", "1", 1, "-100", "-200", "-300")),
         ((35, 87, "100.1", "12.5", "6.5", -1, "-1", "2", "-3"), (57, 148, "58.75", "2.5", "0", -1, "1", "-2", "3"))]


def text(f):
    return "".join(" ".join(str(x) for x in fr) + " \n" for p in f for fr in p)


def readback(arg):
    """one batch of files; returns (count, comparisons, [violation])"""
    files, d, pid = arg
    import io, contextlib, warnings
    sys.path.insert(0, os.path.join(core.REPO, "tools"))
    from CGMFtk.yields import Yields
    import numpy as np
    warnings.simplefilter("ignore")
    bad, n, cmp_ = [], 0, 0
    path = os.path.join(d, "yf%d" % pid)
    for idx in files:
        if isinstance(idx, str):
            # a long file written by the driver
            t, idx = open(idx).read(), os.path.basename(idx)
            rows = [l.split() for l in t.splitlines() if not l.startswith("#")]
            rows = [tuple([int(r[0]), int(r[1])] + r[2:5] + [int(r[5])] + r[6:]) for r in rows]
            pairs = list(zip(rows[::2], rows[1::2]))
            lims = [None, 1, 2, 99, 100, 101, 999, 1000, 1001, len(pairs) - 1, len(pairs), len(pairs) + 1]
        else:
            pairs = [PAIRS[i] for i in idx]
            t = text(pairs)
            lims = [None] + list(range(1, len(pairs) + 2))
        open(path, "w").write(t)
        for lim in lims:
            ev = pairs if lim is None else pairs[:lim]
            fr = [x for p in ev for x in p]
            L, H = fr[::2], fr[1::2]
            n += 1
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    y = Yields(path) if lim is None else Yields(path, nevents=lim)
            except BaseException as ex:
                bad.append(("reader", "file %r nevents=%r: %r" % (idx, lim, ex), {"file": t[:2000], "nevents": lim}))
                continue
            F = lambda q, k: [float(x[k]) for x in q]
            mean = lambda v: sum(v) / len(v)
            want = {"getNumberFragments": len(fr), "getNumberEvents": len(ev), "getA": F(fr, 1), "getZ": F(fr, 0), "getN": [float(x[1] - x[0]) for x in fr], "getU": F(fr, 3), "getJ": F(fr, 4),
                    "getP": F(fr, 5), "getKE": F(fr, 2), "getTXE": [a + b for a, b in zip(F(L, 3), F(H, 3))], "getTKE": [a + b for a, b in zip(F(L, 2), F(H, 2))],
                    "getFragmentMomentum": [[float(v) for v in x[6:9]] for x in fr], "getFissionYields": [[float(v) for v in x] for x in fr],
                    "getALF": F(L, 1), "getZLF": F(L, 0), "getULF": F(L, 3), "getJLF": F(L, 4), "getPLF": F(L, 5), "getKELF": F(L, 2),
                    "getAHF": F(H, 1), "getZHF": F(H, 0), "getUHF": F(H, 3), "getJHF": F(H, 4), "getPHF": F(H, 5), "getKEHF": F(H, 2)}
            for k, w in want.items():
                cmp_ += 1
                try:
                    g = np.asarray(getattr(y, k)(), dtype=float)
                except BaseException as ex:
                    bad.append((k, "file %r nevents=%r: %s() fails: %r" % (idx, lim, k, ex), {"file": t[:2000], "nevents": lim}))
                    continue
                w = np.asarray(w, dtype=float)
                if g.shape != w.shape or not np.allclose(g, w, rtol=1e-12, atol=0):
                    bad.append((k, "file %r nevents=%r: %s() is %r instead of %r" % (idx, lim, k, str(g.tolist())[:300], str(w.tolist())[:300]), {"file": t[:2000], "nevents": lim}))
            try:
                tab = {r[0]: r[1:] for r in y.summaryTable()}
            except BaseException as ex:
                bad.append(("summaryTable", "file %r nevents=%r: summaryTable() fails: %r" % (idx, lim, ex), {"file": t[:2000], "nevents": lim}))
                continue
            rows = {"A": (1, 1), "Z": (0, 0), "TXE": (3, 3), "TKE": (2, 2), "J": (4, 4), "parity": (5, 5)}
            for key, (k, _) in rows.items():
                row = [v for name, v in tab.items() if name.split()[:1] == [key]]
                allv = mean([a + b for a, b in zip(F(L, k), F(H, k))]) if key in ("TXE", "TKE") else mean(F(fr, k))
                w = [allv, mean(F(L, k)), mean(F(H, k))]
                cmp_ += 1
                if len(row) != 1 or len(row[0]) < 3 or any(abs(float(g) - v) > 0.00501 + 1e-9 for g, v in zip(row[0], w)):
                    bad.append(("table-" + key, "file %r nevents=%r: summary row %s is %r instead of %r" % (idx, lim, key, row, w), {"file": t[:2000], "nevents": lim}))
    if os.path.exists(path):
        os.unlink(path)
    return n, cmp_, bad[:40]


def main():
    c = core.Check("C13", "model_checking")
    st = collections.Counter()
    states = set()
    exe = cli.driver()
    evh = build.program("evh", [build.src("evh.cpp")], "opt")
    lev = levels.stub()
    cwd = core.leveldir(lev)
    S = 17 + 1000 * (c.seed - 1)

    def yrun(z, e, n, stream):
        f = os.path.join(core.scratch(), "y_%d_%r_%d_%s" % (z, e, n, stream.replace("@", "_").replace(";", "_")))
        r = core.run_batch(evh, [("Y", "y", z, e, n, f, stream)], cwd)[0]
        t = open(f).read() if os.path.exists(f) else None
        if t is not None:
            os.unlink(f)
        return r, t

    # --- A
    cfg = [(z, 0.0) for z in core.SF] + [(z, e) for z in core.NF for e in ([2.53e-8, 1.0, 5.5, 8.0, 14.0, 20.0] if c.quick else space.EGRID)]
    N = 12 if c.quick else 40

    def one(arg):
        z, e = arg
        lim = N if e < 6 else N // 2
        seed = S + (z % 97) + int(e * 10)
        full = cli.run(exe, ["-i", z, "-e", repr(e), "-n", -lim, "-s", seed], lev)
        sub = {}
        for n in ([1, 2, lim - 1] if c.quick else range(1, lim)):
            sub[n] = cli.run(exe, ["-i", z, "-e", repr(e), "-n", -n, "-s", seed], lev)
        named = cli.run(exe, ["-i", z, "-e", repr(e), "-n", -lim, "-s", seed, "-f", "other"], lev)
        ev = core.run_batch(evh, [core.event("e", z, e, "s%d" % seed)], cwd)[0]
        lib = {}
        for n in range(1, 6 if c.quick else lim):
            lib[n] = yrun(z, e, n, "s%d" % seed)
        resumed = {}
        if e < 6:
            for n, (r, t) in lib.items():
                if r["fate"] == "ok":
                    # a run may consume a few draws before its first event; put those on low values
                    k = min(3, lim - n)
                    want = full[3].get("yields.cgmf.0", "").split("\n")[2 * n:2 * n + 2 * k]
                    resumed[n] = None
                    for back in (2, 0, 1, 3, 4, 5, 6):
                        q, s = yrun(z, e, k, "s%d@%d" % (seed, r["nd"] - back) + "".join(";%d=1e-9" % i for i in range(back)))
                        if q["fate"] == "ok" and s is not None and s.split("\n")[:2 * k] == want:
                            resumed[n] = back
                            break
        return arg, lim, seed, full, sub, named, ev, lib, resumed
    with ThreadPoolExecutor(core.NPROC) as ex:
        for (z, e), lim, seed, full, sub, named, ev, lib, resumed in ex.map(one, cfg):
            what = "-i %d -e %r -n -%d -s %d" % (z, e, lim, seed)
            rep = {"args": what}
            st["runs"] += 2 + len(sub) + len(lib) + len(resumed)
            t = full[3].get("yields.cgmf.0")
            if full[0] != 0 or t is None:
                c.violation("run", "%s: status %r, files %r %s" % (what, full[0], sorted(full[3]), full[2][-200:]), rep)
                continue
            if named[3].get("other.0") != t:
                c.violation("filename", "%s: with -f other the file other.0 is not the same (files %r)" % (what, sorted(named[3])), rep)
            try:
                open(os.path.join(core.scratch(), "cur"), "w").write(t)
                pairs = oracle.parse_yields(os.path.join(core.scratch(), "cur"))
                if 2 * len(pairs) != len([l for l in t.splitlines() if not l.startswith("#")]) or any(len(l.split()) != 9 for l in t.splitlines() if not l.startswith("#")):
                    raise ValueError("odd number of fragments or of columns")
            except Exception as x:
                c.violation("format", "%s: %s" % (what, x), rep)
                continue
            if len(pairs) != lim:
                c.violation("count", "%s: %d pairs written" % (what, len(pairs)), rep)
            for i, pr in enumerate(pairs):
                st["pairs"] += 1
                states.add((z, e, i))
                for prop in ("C01", "C02", "C03", "C05"):
                    for k, m in oracle.judge_pair(prop, z, e, pr):
                        c.violation(k, "%s: pair %d: %s" % (what, i, m), rep)
            for n, r in sub.items():
                s = r[3].get("yields.cgmf.0")
                if s != "".join(l + "\n" for l in t.split("\n")[:2 * n]):
                    c.violation("prefix", "%s: the run of %d events is not the start of the run of %d" % (what, n, lim), dict(rep, n=n))
            for n, (r, s) in lib.items():
                if r["fate"] != "ok" or s != "".join(l + "\n" for l in t.split("\n")[:2 * n]):
                    c.violation("library", "%s: the library run of %d events (%s) differs from the driver's" % (what, n, r["fate"]), dict(rep, n=n))
            if ev["fate"] != "ok":
                c.violation("event", "%s: event mode fails with the same seed: %s" % (what, ev["fate"]), rep)
            elif pairs:
                m = first_matches(ev, pairs[0])
                if m:
                    c.violation("first-event", "%s: %s" % (what, m), rep)
            for n, back in resumed.items():
                st["resumed"] += 1
                if back is None:
                    c.violation("memory", "%s: event %d is not the one a run started there with the rest of the random stream gives" % (what, n), dict(rep, n=n))
            sums = set(a[1] + b[1] for a, b in pairs)
            if e and len(sums) > 1:
                st["mixed"] += 1
            if e >= 14.0 and len(pairs) >= 6 and len(sums) == 1:
                st["single"] += 1
            st["high"] += e >= 14.0
            if len(c.samples) < 3:
                c.sample({"run": what, "pairs": len(pairs), "first": pairs[0] if pairs else None, "fissioning A": sorted(sums)})
    # above 14 MeV several chances are open: over all those runs, at least one has to show two fissioning nuclei
    if st["high"] and not st["mixed"]:
        # every run of independent events above the threshold with a single nucleus has probability < 1e-20 in total
        c.violation("npre-once-per-run", "all %d runs above 14 MeV fission a single nucleus throughout" % st["high"], {})
    elif st["single"] > 0.8 * max(1, st["high"]) and st["mixed"]:
        c.violation("npre-mostly-once", "%d of %d runs above 14 MeV fission a single nucleus throughout" % (st["single"], st["high"]), {})

    # long runs: start of the run, conservation of every pair, read back with limits
    long_, keep = [(z, 0.0) for z in core.SF] + [(z, e) for z in core.NF for e in ((0.3, 9.0) if c.quick else (2.53e-8, 0.3, 4.4, 9.0, 13.0, 19.0))], []
    NL = 2500 if c.quick else 20000

    def big(arg):
        z, e = arg
        seed = S + 7 * (z % 89) + int(e)
        a = cli.run(exe, ["-i", z, "-e", repr(e), "-n", -NL, "-s", seed], lev)
        b = cli.run(exe, ["-i", z, "-e", repr(e), "-n", -(1 + z % 9), "-s", seed], lev)
        f = os.path.join(core.scratch(), "long_%d_%r" % arg)
        t = a[3].get("yields.cgmf.0", "")
        open(f, "w").write(t)
        bad, n = [], 0
        what = "-i %d -e %r -n -%d -s %d" % (z, e, NL, seed)
        try:
            pairs = oracle.parse_yields(f)
        except Exception as x:
            return what, f, 0, [("format", "%s" % x)]
        if a[0] != 0 or len(pairs) != NL:
            bad.append(("count", "status %r, %d pairs written" % (a[0], len(pairs))))
        s = b[3].get("yields.cgmf.0", "")
        if not s or not t.startswith(s):
            bad.append(("prefix", "the run of %d events with this seed is not the start of this one" % (1 + z % 9)))
        for i, pr in enumerate(pairs):
            n += 1
            for prop in ("C01", "C02", "C03", "C05"):
                bad += [(k, "pair %d: %s" % (i, m)) for k, m in oracle.judge_pair(prop, z, e, pr)]
            if len(bad) > 5:
                break
        return what, f, n, bad
    oracle.masses()
    with ThreadPoolExecutor(core.NPROC) as ex:
        for what, f, n, bad in ex.map(big, long_):
            st["runs"] += 2
            st["pairs"] += n
            keep.append(f)
            states.add(what)
            for k, m in bad:
                c.violation(k, "%s: %s" % (what, m), {"args": what})

    # unwritable file
    for f in ("missing-dir/out", "."):
        r = cli.run(exe, ["-i", 98252, "-e", 0, "-n", -3, "-f", f + ("" if f != "." else "/x/y")], lev)
        st["runs"] += 1
        if r[0] == 0 or r[0] is None or r[0] < 0 or not (r[1] + r[2]).strip():
            c.violation("unwritable", "yields to %r: status %r" % (f, r[0]), {"file": f})

    # --- B
    k = len(PAIRS)
    depth = 3 if c.quick else 4
    files = [f for n in range(1, depth + 1) for f in itertools.product(range(k), repeat=n)]
    files = keep[::3] + files
    m = 4 * core.NPROC
    with ProcessPoolExecutor(core.NPROC) as ex:
        for n, cm, bad in ex.map(readback, [(files[i::m], core.scratch(), i) for i in range(m)]):
            st["files"] += n
            st["compared"] += cm
            for key, msg, rep in bad:
                c.violation("reader-" + key, msg, rep)
    c.cov = {"states": len(states) + st["files"], "transitions": st["runs"] + st["files"], "traces_validated_against_impl": st["runs"] + st["files"], "pairs_judged": st["pairs"], "resumed_runs": st["resumed"],
             "files_read": st["files"], "values_compared": st["compared"], "exhaustive": True,
             "bound": "%d reactions and energies, runs of %d events and all enumerated prefixes; every yields file of up to %d events over %d pairs, every event limit; %d runs of %d events" % (len(cfg), N, depth, k, len(long_), NL)}
    c.assumptions = ["pairs are compared to the printed six digits"]
    c.finish()


main()
