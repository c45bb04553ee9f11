"""The command-line driver on events of every shape (C08, C09, C10).

The real driver is compiled against a stand-in of the event generator that hands it events of prescribed multiplicities and
known contents, and logs them.  Every shape alone, all of them in one run, every ordered pair of shapes, all run lengths up to
a bound and some long ones, every cut of a run, every number of ranks: file and summary must be those of the logged events."""
import itertools, json, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, cli, core

LOG = {"FAKE_LOG": "events.log"}


def records(fl):
    return [json.loads(l) for l in fl.get("events.log", "").splitlines()]


def shapefile(shapes):
    import hashlib
    t = "".join("%d %d %d %d %d\n" % s for s in shapes)
    p = os.path.join(core.scratch(), "shapes." + hashlib.sha1(t.encode()).hexdigest())
    if not os.path.exists(p):
        with open(p + ".tmp", "w") as f:
            f.write(t)
        os.rename(p + ".tmp", p)
    return p


def args(z, e, w, start, n):
    return ["-i", z, "-e", repr(e), "-n", n, "-s", start] + ([] if w is None else ["-t", repr(w)])


REAC = [(z, 0.0) for z in core.SF] + [(z, e) for z, e in zip(core.NF, (2.53e-8, 1.0, 5.25, 14.1, 20.0, 0.37, 19.99))]


def configs(quick):
    """(reaction, window, start, number of events, shapes)"""
    every = list(itertools.product((0, 1, 2, 10), (0, 1, 2, 10), (0, 1, 2, 50), (0, 1, 2, 50), (0, 1, 2, 3)))
    small = list(itertools.product((0, 1, 2), (0, 1, 2), (0, 1, 2), (0, 1, 2), (0, 1, 2, 3)))
    tiny = list(itertools.product((0, 1), (0, 1), (0, 1), (0, 1), (0, 2)))
    out, k = [], 0

    def add(shapes, n=None, w=0, start=1):
        nonlocal k
        k += 1
        z, e = REAC[k % len(REAC)]
        out.append((z, e, (-1.0, 1e-8, None, 0.0, 1e-6)[k % 5] if w == 0 else w, start, len(shapes) if n is None else n, shapes))
    for w in (-1.0, 1e-8, 0.0):
        add(every, None, w)
    for s in small:
        add([s])
    for p in itertools.product(tiny, tiny):
        add(list(p))
    if not quick:
        for s in every:
            add([s])
        for p in itertools.product(tiny[::2] + tiny[-1:], repeat=3):
            add(list(p))
    mixed = every[::7] + small[::5] + every[3::11]
    for n in list(range(1, 60 if quick else 300)) + [99, 100, 101, 199, 200, 999, 1000, 1001, 1050, 1999, 2500] + ([] if quick else [5000, 10007, 20000]):
        add(mixed, n, 0, [1, 17, 400000, 2000000000][n % 4])
    return out


def output(c, st, prop):
    """C09 / C10 on every configuration"""
    try:
        exe = cli.standin()
    except build.BuildError as ex:
        st["standin-not-built"] += 1
        c.notes.append("the driver does not compile against the stand-in generator; shapes not enumerated: " + str(ex)[-200:])
        return 0
    conf = configs(c.quick)
    for t in conf:
        shapefile(t[5])

    def one(t):
        z, e, w, s, n, shapes = t
        rc, so, se, fl = cli.run(exe, args(z, e, w, s, n), None, env=dict(LOG, FAKE_SHAPES=shapefile(shapes)))
        a = args(z, e, w, s, n)
        rp = {"args": a, "shapes": shapes[:50]}
        wv = 1e-8 if w is None else w
        if rc != 0:
            return n, [("status", "%r ended with status %r: %s" % (a, rc, core.trim(se)), rp)]
        rs = records(fl)
        bad = []
        if len(rs) != n:
            bad.append(("count", "%r generated %d events" % (a, len(rs)), rp))
        else:
            for r in rs:
                if r["args"][:2] != [z, e] or r["args"][3] != wv:
                    bad.append(("request", "%r generated an event of %r" % (a, r["args"]), rp))
                    break
            if prop == "C10":
                h = fl.get("histories.cgmf.0")
                bad += [("shape-" + k, "%r, events (nL nH gL gH npre) %s: %s" % (a, shapes[:3], m), rp) for k, m in (cli.compare_history(h, rs, z, e, wv) if h is not None else [("file", "no history file")])]
            else:
                bad += [("shape-" + k, "%r, events (nL nH gL gH npre) %s: %s" % (a, shapes[:3], m), rp) for k, m in cli.check_summary(so, rs, z, e)]
        return n, bad
    with ThreadPoolExecutor(core.NPROC) as ex:
        for n, bad in ex.map(one, conf):
            st["shape_runs"] += 1
            st["shape_events"] += n
            for k, m, rp in bad[:3]:
                c.violation(k, m, rp)
    return len(conf)


def splits(c, st):
    """C08: all cuts and all numbers of ranks"""
    try:
        exe, mpi = cli.standin(), cli.standin(True)
    except build.BuildError as ex:
        st["standin-not-built"] += 1
        c.notes.append("the driver does not compile against the stand-in generator; cuts not enumerated: " + str(ex)[-200:])
        return 0
    z, e, w = 92238, 14.5, -1.0

    def run(s, n):
        rc, so, se, fl = cli.run(exe, args(z, e, w, s, n), None, env=LOG)
        try:
            evs = cli.parse_history(fl.get("histories.cgmf.0", ""), True)[1]
        except (cli.Malformed, ValueError) as ex:
            return rc, str(ex), so, []
        return rc, evs, so, records(fl)
    todo = []
    for base, N in ([(1, 1100), (0, 130), (65530, 60), (2000000, 120), (2147480000, 1200)] if c.quick else [(1, 3300), (0, 400), (65530, 300), (16777200, 60), (2000000, 1200), (2147480000, 2500)]):
        cuts = [k for k in range(1, N) if not c.quick or k < 40 or k > N - 8 or k % 41 == 0 or k % 100 in (0, 99, 1)]
        todo.append((base, N, cuts))
    def text(t):
        rc, so, se, fl = cli.run(exe, args(z, e, w, t[0], t[1]), None, env=LOG)
        return rc, fl.get("histories.cgmf.0", ""), fl.get("events.log", "").count("\n")

    def events(s):
        try:
            return cli.parse_history(s, True)[1]
        except (cli.Malformed, ValueError) as ex:
            return str(ex)
    with ThreadPoolExecutor(core.NPROC) as ex:
        for base, N, cuts in todo:
            rc, whole, so, rs = run(base, N)
            st["shape_runs"] += 1
            if rc != 0 or isinstance(whole, str) or len(whole) != N or len(rs) != N:
                c.violation("cut-whole", "run -s %d -n %d: status %r, %s" % (base, N, rc, whole if isinstance(whole, str) else "%d events" % len(whole)), {"args": args(z, e, w, base, N)})
                continue
            dup = len({r["draw"] for r in rs})
            if dup != N:
                c.violation("cut-duplicate", "run -s %d -n %d: only %d different random streams" % (base, N, dup), {"args": args(z, e, w, base, N)})
            full = text((base, N))[1]
            hd = full.split("\n", 1)[0]
            size = {}
            segs = [(0, k) for k in cuts] + [(k, N) for k in cuts] + [(k, k + 1) for k in cuts[:60]]
            for (i, j), (rc, tx, n) in zip(segs, ex.map(lambda t: text((base + t[0], t[1] - t[0])), segs)):
                st["shape_runs"] += 1
                st["shape_events"] += j - i
                body = tx.split("\n", 1)[-1]
                # bytes first; a file that is not literally a part of the whole is compared by its contents
                plain = n == j - i and tx.split("\n", 1)[0] == hd and (full.startswith(tx) if i == 0 else full.endswith(body) and len(body) + size[i] == len(full) - len(hd) - 1 if j == N else False)
                if i == 0:
                    size[j] = len(body)
                if rc != 0 or not (plain or events(tx) == whole[i:j]):
                    c.violation("cut", "run -s %d -n %d differs from events %d..%d of the run -s %d -n %d" % (base + i, j - i, i, j - 1, base, N), {"whole": args(z, e, w, base, N), "part": args(z, e, w, base + i, j - i)})
    ranks = [(p, n, b) for p in range(1, 9) for n in range(1, 5 if c.quick else 12) for b in ((1,) if c.quick else (1, 0, 5000))] + [(2, 1000, 1), (3, 500, 7), (5, 333, 2147480000)]
    hung = 0
    for p, n, b in ranks:
        if hung > 2:
            break
        rc, whole, so, rs = run(b, p * n)
        rr = cli.mpirun(mpi, p, args(z, e, w, b, n), None, timeout=40, env=LOG)
        st["shape_runs"] += p
        st["shape_events"] += p * n
        rp = {"ranks": p, "args": args(z, e, w, b, n)}
        cat, bad = [], None
        for r, (rc, so, se, fl) in enumerate(rr):
            if rc != 0:
                bad = "rank %d ended with %r" % (r, rc)
            try:
                cat += cli.parse_history(fl.get("histories.cgmf.%d" % r, ""), r == 0)[1]
            except (cli.Malformed, ValueError) as ex:
                bad = "rank %d: %s" % (r, ex)
        if bad:
            hung += 1
            c.violation("ranks-file", "%d ranks x %d events: %s" % (p, n, bad), rp)
        elif cat != whole:
            c.violation("ranks", "the files of %d ranks x %d events from %d are not the serial run of %d events" % (p, n, b, p * n), rp)
        else:
            for k, m in cli.check_summary(rr[0][1], rs, z, e):
                c.violation("ranks-" + k, "%d ranks x %d events: %s" % (p, n, m), rp)
            if any("Average" in rr[r][1] for r in range(1, p)):
                c.violation("ranks-print", "%d ranks x %d events: another rank prints a summary of its own" % (p, n), rp)
    return len(ranks)
