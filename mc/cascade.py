"""C16 and C17: the discrete gamma cascade against the level scheme that was supplied.

Level files are made up of small schemes, a different one for every nucleus: all topologies of three excited levels (each
level: any set of listed final levels, none included), with patterns of conversion coefficients, half-lives and branching
ratios.  Fragments are given so little excitation that they start inside these levels.  A model of the cascade (start level,
decay time, branch, conversion, window) enumerates all its paths; each path, taken at either edge of every choice, is turned
into the random numbers it needs and replayed on the library: photon energies, ages, and the number of random numbers used
must be those of the model.  C17 repeats the paths under windows on both sides of every decay time."""
import collections, itertools, math, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, core, levels, oracle, sampling

LN2 = math.log(2.0)
EPS = 1e-7
ICC = [(0.0, 0.0, 0.0), (0.4, 0.0, 2.0), (0.0, 3.5, 0.25), (250.0, 0.7, 0.0)]
HL = [(0.0, 0.0, 0.0, 0.0), (0.0, 2e-9, 0.0, 1e-12), (5e-10, 0.0, 3e-8, 0.0), (1e-6, 4e-10, 2e-9, 5e-9)]
BR = [(1.0, 1.0, 1.0), (0.6, 0.3, 0.1), (0.2, 0.0, 0.5), (0.05, 0.8, 0.9)]
ENE = [(0.31, 0.83, 1.47, 2.6), (0.12, 0.9, 1.1, 3.3), (0.5, 0.7, 2.1, 2.9)]
TOPO = list(itertools.product([(), (0,)], [(), (0,), (1,), (0, 1)], [(), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)]))


def rank(k):
    """the topology of scheme k: those that are not wide or chains take them in turn"""
    return (k // 7 * 5 + (0, 1, 2, 0, 3, 0, 4)[k % 7]) % len(TOPO)


def scheme(k, a, halflives=True):
    if k % 7 == 5:
        return wide(k, a, halflives)
    if k % 7 == 3:
        return chain(k, a, halflives)
    t = TOPO[rank(k)]
    k2 = k // len(TOPO) + k
    icc, hl, br, en = ICC[k2 % 4], HL[(k2 // 4 + k) % 4] if halflives else HL[0], BR[(k2 // 3) % 4], ENE[k2 % 3]
    j = 0.5 if a % 2 else 0.0
    lev = [(0.0, j, 1, -1.0, [])]
    for i in range(3):
        lev.append((en[i], j + (i + k) % 4, 1 if (i + k) % 3 else -1, hl[i], [(f, br[(f + i) % 3], icc[(f + i + k) % 3]) for f in t[i]]))
    lev.append((en[3], j + 2, 1, hl[3], [(3, 0.7, 0.0), (1, 0.2, icc[k % 3]), (0, 0.1, 0.3)][: 1 + k % 3]))
    return lev


def wide(k, a, halflives):
    """a scheme of 24 levels; every second one from the tenth on decays to (nearly) all below it"""
    j = 0.5 if a % 2 else 0.0
    lev = [(0.0, j, 1, -1.0, [])]
    for i in range(1, 23):
        e = 0.11 + 0.08 * i + 0.003 * ((i * 7 + k) % 11)
        h = [0.0, 0.0, 3e-9, 0.0, 7e-8][(i + k) % 5] if halflives else 0.0
        fs = [f for f in range(i) if f < 10 or f % 2] if i >= 10 and i % 2 == 0 else [0]
        lev.append((round(e, 6), j + (i + k) % 6, 1 if (i + k) % 3 else -1, h, [(f, 0.02 + 0.01 * ((3 * f + k) % 8), [0.0, 0.7, 0.0, 0.2][(f + i) % 4]) for f in fs]))
    lev.append((3.1, j + 2, 1, 0.0, [(22, 1.0, 0.0)]))
    return lev


def chain(k, a, halflives):
    """15 levels that decay one into the next, a few of them slowly, converted, or past their neighbour"""
    j = 0.5 if a % 2 else 0.0
    lev = [(0.0, j, 1, -1.0, [])]
    for i in range(1, 15):
        h = {1: 4e-9, 4: 6e-8, 9: 2e-10}.get((i + k) % 14, 0.0) if halflives else 0.0
        ic = 0.8 if (i + k) % 9 == 2 else 0.0
        gs = [(i - 1, 0.9, ic)] + ([(i - 2, 0.1, 0.0)] if (i + k) % 12 == 7 and i > 1 else [])
        lev.append((round(0.13 * i + 0.004 * ((i * 5 + k) % 7), 6), j + (i + k) % 5, 1 if (i + k) % 3 else -1, h, gs))
    lev.append((3.2, j + 2, 1, 0.0, [(14, 1.0, 0.0)]))
    return lev


def branches(lev, i):
    """the transitions of level i as documented: listed ones with normalised ratios; if none is listed, E1 to every lower level
    of other parity and spin within one, otherwise to the lowest level nearest in spin"""
    e, j, p, h, gs = lev[i]
    if not gs:
        if i == 1:
            out = [(0, 1.0, 0.0)]
        else:
            c = [(f, lev[f]) for f in range(i) if not (j == 0 and lev[f][1] == 0)]
            out = [(f, 1.0, 0.0) for f, l in c if l[2] != p and int(abs(l[1] - j)) <= 1]
            if not out and c:
                d = min(int(abs(l[1] - j)) for _, l in c)
                out = [next((f, 1.0, 0.0) for f, l in c if int(abs(l[1] - j)) == d)]
            if not out:
                out = [(0, 1.0, 0.0)]
    else:
        out = list(gs)
    s = sum(b for _, b, _ in out)
    if s == 0:
        out = [(f, 1.0 / len(out), 0.0) for f, _, _ in out]
        s = 1.0
    return [(f, b / s, 1.0 / (1.0 + ic)) for f, b, ic in out]


def decay(lev, i, draws, window):
    """replays the cascade: (photons [(E, age)], final level, draws used, decisions)"""
    it = iter(draws)
    t, ph, used, steps = 0.0, [], 0, []
    while i > 0:
        h = lev[i][3]
        if h > 0:
            t += -math.log(next(it)) * h / LN2
            used += 1
        if window > 0 and t > window:
            break
        r = next(it)
        used += 1
        s = 0.0
        for f, b, g in branches(lev, i):
            s += b
            if s >= r:
                c = next(it)
                used += 1
                if c <= g:
                    ph.append((lev[i][0] - lev[f][0], t))
                steps.append((i, f, c <= g, t))
                i = f
                break
    return ph, i, used, steps


def paths(lev, i, edge, times):
    """all paths from level i: lists of draws; `edge` 0/1: the draws sit at the lower/upper edge of every choice"""
    if i == 0:
        return [[]]
    head = []
    if lev[i][3] > 0:
        head = [[x] for x in times]
    else:
        head = [[]]
    out = []
    s = 0.0
    bs = [b for b in branches(lev, i)]
    for f, b, g in bs:
        lo, hi = s, s + b
        s = hi
        if b <= 4 * EPS:
            continue
        r = lo + EPS if edge == 0 else min(hi, 1.0) - EPS
        conv = [0.0 if edge == 0 else g - EPS]
        if g < 1:
            conv.append(g + EPS if edge == 0 else 1 - EPS)
        for c in conv:
            for tail in paths(lev, f, edge, times[1:] + times[:1]):
                out += [h + [r, c] + tail for h in head]
    return out


def short(x):
    return float("%.6g" % x) if oracle.isnum(x) else x


class Bench:
    """fragment pairs of one reaction that can be given a chosen excitation"""

    def __init__(self, exe, zaid, einc, zdraws, masses=None):
        self.exe, self.zaid, self.einc = exe, zaid, einc
        self.m = sampling.Model(zaid, einc, 0, einc, "documented")
        m = self.m
        ms = [a for a in range((m.ac + 1) // 2, m.amax + 1)]
        if masses:
            ms = ms[::max(1, len(ms) // masses)][:masses]
        self.pairs = []
        js, keys = [], []
        for a in ms:
            for z in zdraws:
                js.append(self.job("z", self.head(a, z, -4.0)))
                keys.append((a, z))
        cwd = core.leveldir(levels.stub())
        n = max(1, len(js) // core.NPROC + 1)
        with ThreadPoolExecutor(core.NPROC) as ex:
            rs = [r for b in ex.map(lambda i: core.run_batch(exe, js[i:i + n], cwd), range(0, len(js), n)) for r in b]
        seen = set()
        for (a, z), r in zip(keys, rs):
            if r["fate"] != "ok":
                continue
            k = (tuple(r["A"]), tuple(r["Z"]))
            if k in seen:
                continue
            seen.add(k)
            self.pairs.append((a, z, r["A"], r["Z"]))

    def job(self, i, draws, window=-1.0):
        return core.event(i, self.zaid, self.einc, "s7;" + ";".join("%d=%r" % p for p in enumerate(draws)), window)

    def head(self, a, z, g):
        x = math.copysign(math.exp(-g * g / 4.0), g)
        m = self.m
        return [1e-4, 0.0, (a - m.amin + 0.5) / (m.amax - m.amin + 1), 0.0, z, 0.0, 0.5 + x / 2, 0.5, 0.05, 0.0, 0.05, 0.0, 0.2, 0.8, 0.31, 0.72]

    def gauss(self, pair, txe):
        a, z, A, Z = pair
        mm = oracle.masses()
        zc, ac = sum(Z), sum(A)
        q = mm[1000 * zc + ac] - mm[1000 * Z[0] + A[0]] - mm[1000 * Z[1] + A[1]]
        if self.einc:
            q += self.einc + mm[1000 * zc + ac - 1] + mm[1] - mm[1000 * zc + ac]
        return (q - txe - self.m.mean[max(A)]) / self.m.s[max(A)]


def nearest(lev, u):
    return min(range(len(lev)), key=lambda i: abs(lev[i][0] - u))


def after_nearest(lev, u):
    return 1 + min(range(len(lev) - 1), key=lambda i: abs(lev[i][0] - u))


RULES = {"nearest": nearest, "after nearest": after_nearest}


def rest(r, f):
    _, gx, gf = oracle.photons(r, f)
    g0 = 0 if f == 0 else r["nugf"][0]
    ages = r["gage"][g0:g0 + r["nugf"][f]]
    return [list(zip(g, ages)) for g in (gf, gx)]


def same(want, r, f, ages=True):
    for got in rest(r, f):
        if len(got) == len(want) and all(abs(a[0] - b[0]) < 2e-6 and (not ages or abs(a[1] - b[1]) <= 1e-9 * abs(b[1]) + 1e-18) for a, b in zip(got, want)):
            return True
    return False


def dirs(k):
    return [x for i in range(k) for x in (0.21 + 0.07 * (i % 9), 0.13 + 0.09 * (i % 8))]


class Explorer:
    def __init__(self, c, bench, halflives, k0=0):
        self.c, self.b = c, bench
        self.n = collections.Counter()
        nuc = sorted({(Z[f], A[f]) for _, _, A, Z in bench.pairs for f in (0, 1)})
        self.lev = {za: scheme(i + k0, za[1], halflives) for i, za in enumerate(nuc)}
        self.cwd = core.leveldir(levels.fmt([(1000 * z + a, self.lev[(z, a)]) for z, a in nuc]))
        self.topos = {rank(i + k0) for i in range(len(nuc)) if (i + k0) % 7 not in (3, 5)}

    def us(self, pair, txes):
        """the excitation energies of both fragments for each total excitation: one probe event each"""
        js, keep = [], []
        for t in txes:
            h = self.b.head(pair[0], pair[1], self.b.gauss(pair, t))
            js.append(self.b.job("u", h))
            keep.append(h)
        out = []
        for t, h, r in zip(txes, keep, core.run_batch(self.b.exe, js, self.cwd)):
            self.n["probes"] += 1
            if r["fate"] != "ok":
                self.bad.append(("fate", "probe of %s: %s" % (pair, r["fate"]), {"draws": h}))
            elif list(r["A"]) == list(pair[2]) and list(r["Z"]) == list(pair[3]):
                out.append((h, r["U"], r))
        return out

    def plan(self, pair, txes, windows):
        """windows: None; 1: both sides of one decay time of each path (in turn); 2: of every decay time"""
        n = collections.Counter()
        jobs, want = [], []
        L = [self.lev[(pair[3][f], pair[2][f])] for f in (0, 1)]
        top = [l[-1][0] for l in L]
        for h, U, r in self.us(pair, txes):
            if any(U[f] >= top[f] - 1e-9 or U[f] < 0 for f in (0, 1)):
                n["outside"] += 1
                continue
            start = [self.rule(L[f], U[f]) for f in (0, 1)]
            ps = []
            for f in (0, 1):
                q = []
                for edge in (0, 1):
                    q += paths(L[f], start[f], edge, [0.6, 0.05, 0.97] if edge == 0 else [0.3, 0.9, 1e-3])
                ps.append(q)
            for i in range(max(len(ps[0]), len(ps[1]))):
                d = [ps[f][i % len(ps[f])] for f in (0, 1)]
                base = [decay(L[f], start[f], d[f], -1.0) for f in (0, 1)]
                ws = [-1.0]
                if windows:
                    t = sorted({s[3] for b in base for s in b[3] if s[3] > 0})
                    if windows == 1 and t:
                        t = [t[i % len(t)]]
                    ws = [x * (1 + s) for x in t for s in (-1e-6, 1e-6)]
                    if not ws:
                        ws = [1e-9]
                for w in ws:
                    pr = [decay(L[f], start[f], d[f], w) for f in (0, 1)]
                    dr = h + d[0][:pr[0][2]] + dirs(len(pr[0][0])) + d[1][:pr[1][2]] + dirs(len(pr[1][0]))
                    jobs.append(self.b.job("c", dr, w))
                    want.append((pr, len(dr), start, U, base))
        return [(pair, L, jobs[i:i + 40], want[i:i + 40]) for i in range(0, len(jobs), 40)], n

    def judge(self, batch):
        pair, L, jobs, want = batch
        self_bad, n, windows = [], collections.Counter(), self.windows
        for j, w, r in zip(jobs, want, core.run_batch(self.b.exe, jobs, self.cwd)):
            pr, nd, start, U, base = w
            n["executions"] += 1
            n["steps"] += len(pr[0][3]) + len(pr[1][3])
            rep = {"job": j, "levels": L, "start": start, "expected": [p[0] for p in pr]}
            if r["fate"] != "ok":
                self_bad.append(("fate", "%s: %s" % (pair, r["fate"]), rep))
                break
            bad = None
            for f in (0, 1):
                who = "%s fragment Z=%d A=%d U=%.4f MeV window %g" % (("light", "heavy")[f], pair[3][f], pair[2][f], U[f], j[5])
                if r["nuf"][f]:
                    bad = ("neutron", "%s: emits neutrons below its first levels" % who)
                elif not same(pr[f][0], r, f, ages=windows is not None):
                    bad = ("cascade", "%s: photons %s, the scheme and the draws give %s (levels %s)" % (
                        who, [tuple(short(x) for x in t) for t in rest(r, f)[1]], [tuple(short(x) for x in t) for t in pr[f][0]],
                        [start[f]] + [s[1] for s in pr[f][3]]))
                if bad:
                    break
            if not bad and r["nd"] != nd:
                bad = ("draws", "%s: %d random numbers used, the model cascade uses %d" % (pair, r["nd"], nd))
            if bad:
                self_bad.append(bad + (rep,))
                break
        return self_bad, n

    def find_rule(self):
        """how the start level is chosen: the nearest level (documented)"""
        votes = collections.Counter()
        with ThreadPoolExecutor(core.NPROC) as ex:
            probes = list(ex.map(lambda p: (p, self.us(p, (0.5, 1.7, 3.0))), self.b.pairs[:24]))
        for pair, us in probes:
            L = [self.lev[(pair[3][f], pair[2][f])] for f in (0, 1)]
            for h, U, r in us:
                for f in (0, 1):
                    if U[f] >= L[f][-1][0] - 1e-9:
                        continue
                    e = {k: rule(L[f], U[f]) for k, rule in RULES.items()}
                    a, b = e["nearest"], e["after nearest"]
                    if a == b or any(ic for l in L[f] for _, _, ic in l[4]):
                        continue
                    got = min(rest(r, f), key=lambda g: abs(sum(x for x, _ in g) - L[f][b][0]))
                    s = [sum(x for x, _ in g) for g in rest(r, f)]
                    for k in RULES:
                        if any(abs(x - L[f][e[k]][0]) < 1e-5 for x in s):
                            votes[k] += 1
                    votes["all"] += 1
        return votes


def continuum(c, exe, n):
    """fragments that come from the continuum: with a finite half-life on every level the discrete photons are the ones with an
    age; they have to follow listed transitions down to the ground state, after all the others"""
    zs = list(levels.nuclei_range())
    sch = {}
    for i, (z, a) in enumerate(zs):
        l = scheme(i, a)
        sch[(z, a)] = [l[0]] + [(e * 0.4, j, p, 1e-9 * (k + 1), g) for k, (e, j, p, h, g) in enumerate(l[1:])]
    cwd = core.leveldir(levels.fmt([(1000 * z + a, s) for (z, a), s in sch.items()]))
    jobs = []
    for i in range(1, n + 1):
        for z, e in ((98252, 0.0), (92235, 2.53e-8), (94239, 5.0), (92238, 12.0), (94240, 0.0), (93237, 20.0)):
            jobs.append(core.event("k", z, e, "s%d" % (7000 + i)))
    tot = collections.Counter()

    def follow(ph, lev, i):
        """can the photon energies ph be emitted going down from level i to the ground state"""
        if i == 0:
            return not ph
        for f, b, g in branches(lev, i):
            if b <= 0:
                continue
            de = lev[i][0] - lev[f][0]
            if ph and abs(ph[0] - de) < 2e-5 and follow(ph[1:], lev, f):
                return True
            if g < 1 and follow(ph, lev, f):
                return True
        return False

    def on(j, r):
        tot["events"] += 1
        if r["fate"] != "ok":
            return c.violation("fate", "%s: %s" % (j, r["fate"]), {"job": j})
        for f in (0, 1):
            a, z = r["A"][f] - r["nuf"][f], r["Z"][f]
            lev = sch.get((z, a))
            if lev is None:
                continue
            ok, late = False, None
            for ph in rest(r, f):
                ages = [t for _, t in ph]
                k = next((i for i, t in enumerate(ages) if t > 0), len(ages))
                if any(t <= 0 for t in ages[k:]) or any(x > y for x, y in zip(ages, ages[1:])):
                    late = "ages %s are not those of one cascade" % ages
                    continue
                tail = [e for e, _ in ph[k:]]
                if any(follow(tail, lev, i) for i in range(len(lev))):
                    ok = True
            tot["cascades"] += 1
            if not ok:
                c.violation("continuum-cascade", "residue Z=%d A=%d: delayed photons %s do not follow its level scheme%s" % (z, a, [(round(x, 6), t) for x, t in rest(r, f)[1]], "; " + late if late else ""), {"job": j, "levels": lev})
    core.explore(exe, jobs, cwd, on)
    return tot


def histories(c, ex_, depth):
    """every sequence of windows up to the depth in one process: each event as in a fresh process"""
    b = ex_.b
    # the fragment pair and path with the most decay times
    best = None
    for pair in b.pairs:
        L = [ex_.lev[(pair[3][f], pair[2][f])] for f in (0, 1)]
        for h, U, r in ex_.us(pair, (2.0,)):
            if any(U[f] >= L[f][-1][0] for f in (0, 1)):
                continue
            st = [ex_.rule(L[f], U[f]) for f in (0, 1)]
            d = [max(paths(L[f], st[f], 0, [0.6, 0.05, 0.97]), key=lambda p: len({x[1] for x in decay(L[f], st[f], p, -1.0)[0]})) for f in (0, 1)]
            pr = [decay(L[f], st[f], d[f], -1.0) for f in (0, 1)]
            t = sorted({x[1] for p in pr for x in p[0] if x[1] > 0})
            if best is None or len(t) > len(best[1]):
                best = (h + d[0] + dirs(len(pr[0][0])) + d[1] + dirs(len(pr[1][0])), t)
        if best and len(best[1]) >= 3:
            break
    h, t = best
    ws = [-1.0, t[0] * 0.9, t[0] * 1.1] + ([t[-1] * 0.9] if len(t) > 1 else []) + [t[-1] * 1.1]
    jobs = {w: b.job("h", h, w) for w in ws}
    ref = {w: core.run_batch(b.exe, [jobs[w]], ex_.cwd)[0] for w in ws}
    n = 0
    seqs = [s for d in range(2, depth + 1) for s in itertools.product(ws, repeat=d)]

    def run(s):
        return s, core.run_batch(b.exe, [jobs[w] for w in s], ex_.cwd)
    with ThreadPoolExecutor(core.NPROC) as ex:
        for s, rs in ex.map(run, seqs):
            n += 1
            for i, (w, r) in enumerate(zip(s, rs)):
                if {k: v for k, v in r.items() if k != "id"} != {k: v for k, v in ref[w].items() if k != "id"}:
                    c.violation("window-history", "event %d of the windows %s differs from the same event in a fresh process" % (i, list(s)), {"jobs": [jobs[x] for x in s]})
                    break
    return n, len({str(r.get("gE")) for r in ref.values()})


def main():
    prop = sys.argv[1]
    c = core.Check(prop, "model_checking")
    exe = build.program("evh", [build.src("evh.cpp")], "opt")
    core.scratch()
    win = prop == "C17"
    confs = [(98252, 0.0), (92235, 2.53e-8)] if c.quick else [(98252, 0.0), (92235, 2.53e-8), (94239, 1.0), (94240, 0.0), (92238, 2.0), (94241, 0.5)]
    tot, topo = collections.Counter(), set()
    zd = (0.5, 0.36, 0.64) if c.quick else (0.07, 0.22, 0.36, 0.5, 0.64, 0.78, 0.93)
    hist = None
    for k, (z, e) in enumerate(confs):
        b = Bench(exe, z, e, zd, (6 if win else 10) if c.quick else None)
        x = Explorer(c, b, True, 33 * k)
        topo |= x.topos
        x.bad = []
        v = x.find_rule()
        if v["all"] and v["nearest"] == v["all"]:
            x.rule = nearest
        elif v["all"] and v["after nearest"] == v["all"]:
            x.rule = after_nearest
            if not win:
                c.violation("start-after-nearest", "%d: a fragment whose excitation lies among its discrete levels starts from the level after the nearest one (its photons can carry more than its excitation energy)" % z, {"votes": v})
        else:
            c.violation("start-level", "%d: a fragment whose excitation lies among its discrete levels does not start from the nearest one (%s)" % (z, dict(v)), {"votes": v})
            continue
        txes = (0.4, 1.4, 2.6) if c.quick else (0.15, 0.4, 0.9, 1.4, 2.0, 2.6, 3.4, 4.2)
        with ThreadPoolExecutor(core.NPROC) as ex:
            x.windows = (1 if c.quick else 2) if win else None
            batches = []
            for bs, n in ex.map(lambda p: x.plan(p, txes, x.windows), b.pairs):
                tot.update(n)
                batches += bs
            for bad, n in ex.map(x.judge, batches):
                tot.update(n)
                for key, msg, rep in bad:
                    c.violation(key, msg, rep)
        for key, msg, rep in x.bad:
            c.violation(key, msg, rep)
        tot.update(x.n)
        tot["pairs"] += len(b.pairs)
        tot["schemes"] += len(x.lev)
        c.sample({"reaction": (z, e), "pairs": len(b.pairs), "schemes": len(x.lev), "executions": tot["executions"]})
        if win and hist is None:
            hist = histories(c, x, 3 if c.quick else 4)
    cont = continuum(c, exe, 25 if c.quick else 400)
    c.cov = {"states": tot["steps"], "transitions": tot["executions"] + cont["events"], "executions": tot["executions"], "cascade_steps": tot["steps"], "probe_events": tot["probes"],
             "fragment_pairs": tot["pairs"], "schemes": tot["schemes"], "topologies": len(topo), "continuum_events": cont["events"], "continuum_cascades": cont["cascades"],
             "exhaustive": "every path of every scheme, at both edges of every choice, for the listed pairs",
             "conformance": "each model path is replayed as an event; photon energies to 2e-6 MeV, %srandom numbers used exactly" % ("ages to 1e-9, " if win else "")}
    if win:
        c.cov["window_sequences"], c.cov["distinct_window_outcomes"] = hist
    c.assumptions = ["fragments take any excitation their kinetic energy leaves; three excited levels and one high level per scheme; every seventh scheme a chain of 15 levels, every seventh one of 24 levels with up to 16 transitions per level",
                     "photon energies decoded with the angle to the x axis or to the fragment's velocity, whichever fits (see C04)"]
    c.finish()


if __name__ == "__main__":
    main()
