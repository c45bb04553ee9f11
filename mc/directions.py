"""C25: directions of the fission axis and of the emitted particles.

The two draws behind a direction are enumerated on a grid of cell midpoints and every cell is replayed on the library; the
cosines and azimuths found must be the quantiles of the distribution that the property prescribes (isotropic; 1+(a-1)cos^2
with a from anisotropy.dat for the fission axis; p0 sinh(cos)+p1 for pre-equilibrium neutrons), independently of each other.
Which draws lie behind the direction of a particle is found by replaying the event with every single draw changed."""
import bisect, collections, itertools, math, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, core, initial, levels, oracle, sampling
from sampling import LOW

AMU, MN = 931.494013, 1.00866491578 * 931.494013


def mass(z, a):
    return a * AMU + oracle.masses()[1000 * z + a]


def polar(v):
    r = math.sqrt(sum(x * x for x in v))
    return v[2] / r, (math.atan2(v[1], v[0]) / (2 * math.pi)) % 1.0


def quantile(cdf, u):
    lo, hi = -1.0, 1.0
    for _ in range(60):
        m = 0.5 * (lo + hi)
        if cdf(m) < u:
            lo = m
        else:
            hi = m
    return lo


ISO = lambda c: 0.5 * (c + 1)


class Base:
    """the numbers of the engine's base streams (mt19937, two words per number)"""

    def __init__(self, seed):
        m = [seed & 0xffffffff]
        for i in range(1, 624):
            m.append((1812433253 * (m[-1] ^ (m[-1] >> 30)) + i) & 0xffffffff)
        self.m, self.i = m, 624

    def word(self):
        m = self.m
        if self.i == 624:
            for k in range(624):
                y = (m[k] & 0x80000000) | (m[(k + 1) % 624] & 0x7fffffff)
                m[k] = m[(k + 397) % 624] ^ (y >> 1) ^ (0x9908b0df if y & 1 else 0)
            self.i = 0
        y = m[self.i]
        self.i += 1
        y ^= y >> 11
        y ^= (y << 7) & 0x9d2c5680
        y ^= (y << 15) & 0xefc60000
        return y ^ (y >> 18)

    def take(self, n):
        out = []
        for _ in range(n):
            a = self.word()
            out.append((a + self.word() * 4294967296.0) / 18446744073709551616.0)
        return out


def numbers(stream, n):
    """the first n numbers of a stream s<seed>;<index>=<value>;..."""
    t = stream.split(";")
    d = Base(int(t[0][1:])).take(n)
    for x in t[1:]:
        i, v = x.split("=")
        if int(i) < n:
            d[int(i)] = float(v)
    return d


# ways two numbers may become a direction: axes (x, y, polar), which number is the azimuth, sign of the cosine
WAYS = list(itertools.product(((0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2), (2, 1, 0), (0, 2, 1)), (0, 1), (1, -1)))


def implied(v, way):
    """(number behind the azimuth, number behind the cosine, sine)"""
    (x, y, z), _, s = way
    return (math.atan2(v[y], v[x]) / (2 * math.pi)) % 1.0, 0.5 * (1 + s * v[z]), math.hypot(v[x], v[y])


def fits(v, way, pair):
    f, c, sn = implied(v, way)
    a, b = pair if way[1] == 0 else pair[::-1]
    d = abs(f - a)
    return min(d, 1 - d) * sn < 1e-7 and abs(c - b) < 1e-7


def judge(dirs, n, cdf, tol, tolphi=1e-3, band=()):
    """dirs: the n*n directions of the grid; None or what is wrong. band: further distributions; the one found has to lie
    between them."""
    pol = [polar(d) for d in dirs]
    band = [cdf] + list(band)
    qs = [quantile(cdf, (i + 0.5) / n) for i in range(n)]
    byphi = sorted(pol, key=lambda p: p[1])
    # azimuths: n groups of n
    for i, p in enumerate(byphi):
        w = (i // n + 0.5) / n
        if abs(p[1] - w) > tolphi:
            return "azimuths are not uniform: quantile %.3f lies at %.4f" % (w, p[1])
    for g in range(n):
        cs = sorted(p[0] for p in byphi[g * n:(g + 1) * n])
        for i, c in enumerate(cs):
            # compare probabilities, not cosines
            f = [x(c) for x in band]
            if not min(f) - tol <= (i + 0.5) / n <= max(f) + tol:
                return "at azimuth %.3f the cosine of quantile %.4f is %.4f, %.4f expected" % ((g + 0.5) / n, (i + 0.5) / n, c, qs[i])
    return None


def spread(dirs):
    """isotropy of a grid of directions, whatever the axes the two draws refer to; None or what is wrong"""
    n = len(dirs)
    m = lambda f: sum(map(f, dirs)) / n
    for i in range(3):
        for what, got, want in [("<%s>", m(lambda d: d[i]), 0.0), ("<%s^2>", m(lambda d: d[i] ** 2), 1 / 3), ("<%s^4>", m(lambda d: d[i] ** 4), 0.2),
                                ("<%s%s>", m(lambda d: d[i] * d[(i + 1) % 3]), 0.0), ("<%s^2%s^2>", m(lambda d: (d[i] * d[(i + 1) % 3]) ** 2), 1 / 15)]:
            if abs(got - want) > 0.06:
                return "%s is %.3f, %.3f expected" % (what % (("xyz"[i],) if what.count("%s") == 1 else ("xyz"[i], "xyz"[(i + 1) % 3])), got, want)
    o = collections.Counter(tuple(x > 0 for x in d) for d in dirs)
    if len(o) < 8 or min(o.values()) < 0.6 * n / 8:
        return "octants hold %s of %d directions" % (sorted(o.values()), n)
    return None


def anisotropy():
    rows = [l.split() for l in open(os.path.join(core.DATA, "anisotropy.dat")) if l.strip() and not l.startswith("#")]
    e0, e1, de = map(float, rows[0])
    return {int(r[0]): [float(x) for x in r[1:]] for r in rows[1:]}, e0, de


def exact(a):
    norm = 2 + 2 * (a - 1) / 3
    return lambda c: (c + 1 + (a - 1) * (c ** 3 + 1) / 3) / norm


def stepped(a, n=50):
    """the same distribution as a table of n points, accumulated and interpolated"""
    xs = [2.0 * i / (n - 1) - 1 for i in range(n)]
    ys = [0.0]
    for x in xs[1:]:
        ys.append(ys[-1] + 1 + (a - 1) * x * x)
    ys = [y / ys[-1] for y in ys]

    def f(c):
        i = min(max(int((c + 1) / 2 * (n - 1)), 0), n - 2)
        return ys[i] + (ys[i + 1] - ys[i]) * (c - xs[i]) / (xs[i + 1] - xs[i])
    return f


def axis(b, N, tab):
    """the direction of the light fragment in the frame of the fissioning nucleus"""
    m = b.open()
    if m is None:
        b.st["not-decidable"] += 1
        return
    zc, a0 = core.compound(b.zaid, b.einc)
    t, e0, de = tab
    a, near = 1.0, [1.0]
    if b.einc > 0 and b.zaid in t:
        x = (b.einc - e0) / de
        a = t[b.zaid][int(math.floor(x + 0.5))]
        # the nearest entry of the table, or anything between the two neighbours; exact or tabulated in steps
        near = sorted({t[b.zaid][k] for k in (int(math.floor(x + 1e-6)), int(math.ceil(x - 1e-6)))})
    cdf = exact(a)
    band = [f(x) for x in near for f in (exact, stepped)]
    peak = max(m.y, key=lambda x: m.y[x])
    for A in (peak, m.ac - peak) if b.deep else (peak,):
        evs = []
        for i in range(N):
            for j in range(N):
                d = b.ev(A, [(0.5, 0.0)])
                d[-2:] = [(i + 0.5) / N, (j + 0.5) / N]
                evs.append(d)
        p = b.replay(evs, "a")
        if p is None:
            return
        dirs = []
        for pr in p:
            ml, mh = mass(pr[0][0], pr[0][1]), mass(pr[1][0], pr[1][1])
            dirs.append([pr[0][6 + k] - ml / (ml + mh) * (pr[0][6 + k] + pr[1][6 + k]) for k in range(3)])
        b.st["cells"] += N * N
        w = judge(dirs, N, cdf, 2e-4, 2e-3, band)
        if w:
            b.bad.append(("axis", "%s: fission axis, anisotropy %.3f, A=%d: %s" % (b.name, a, A, w), {"group": b.name, "A": A, "draws": evs[0]}))
            return


class Event:
    """one event of the library and the draws behind the directions of its particles"""

    def __init__(self, exe, cwd, zaid, einc, stream, tag):
        self.exe, self.cwd, self.zaid, self.einc, self.tag = exe, cwd, zaid, einc, tag
        self.stream, self.bad, self.st, self.pairs = stream, [], collections.Counter(), []

    def job(self, over):
        s = self.stream + "".join(";%d=%r" % (i, v) for i, v in sorted(over.items()))
        return core.event("d", self.zaid, self.einc, s)

    def run(self, overs):
        js = [self.job(o) for o in overs]
        rs = core.run_batch(self.exe, js, self.cwd)
        self.st["executions"] += len(js)
        return js, rs

    def particles(self, r):
        """{particle: direction in the frame of its emitter} (photons: as reported)"""
        out = {}
        for i in range(r["nu"]):
            out["n%d" % i] = [r["cu"][i], r["cv"][i], r["cw"][i]]
        for i in range(r["nug"]):
            out["g%d" % i] = [r["gu"][i], r["gv"][i], r["gw"][i]]
        zc, a0 = core.compound(self.zaid, self.einc)
        p = [0.0, 0.0, math.sqrt(2 * MN * self.einc)]
        for i in range(r["npre"]):
            v = math.sqrt(2 * r["pE"][i] / MN)
            vn = [v * r["pu"][i], v * r["pv"][i], v * r["pw"][i]]
            m = mass(zc, a0 - i)
            c = [vn[k] - p[k] / m for k in range(3)]
            self.ecm0 = 0.5 * MN * sum(x * x for x in c) if i == 0 else self.ecm0
            out["p%d" % i] = [x / math.sqrt(sum(y * y for y in c)) for x in c]
            p = [p[k] - MN * vn[k] for k in range(3)]
        return out

    def explore(self, N, preeq=False):
        js, (base,) = self.run([{}])
        if base["fate"] != "ok":
            self.bad.append(("fate", "%s: %s" % (self.tag, base["fate"]), {"job": js[0]}))
            return
        self.base = base
        ref = self.particles(base)
        self.st["particles"] += len(ref)
        V = 0.31415
        owner = collections.defaultdict(list)
        js, rs = self.run([{i: V} for i in range(base["nd"])])
        for i, (j, r) in enumerate(zip(js, rs)):
            if r["fate"] != "ok" or any(r[k] != base[k] for k in ("nd", "nu", "nug", "npre", "A", "Z", "cE", "gage")):
                continue
            if any(abs(a / b - 1) > 0.25 for a, b in zip(r["gE"], base["gE"])):
                continue
            d = self.particles(r)
            ch = [k for k in ref if math.dist(d[k], ref[k]) > 0.1]
            if len(ch) == 1:
                owner[ch[0]].append(i)
            elif len(ch) > 1:
                self.bad.append(("correlated", "%s: one draw turns the directions of %s together" % (self.tag, " and ".join(ch)), {"job": j, "base": self.job({})}))
                return
        # a draw may by chance have had almost the probing value already
        short = [k for k in ref if len(owner[k]) < 2]
        if short:
            js, rs = self.run([{i: 0.8 if i % 2 else 0.77} for i in range(base["nd"])])
            for i, (j, r) in enumerate(zip(js, rs)):
                if r["fate"] == "ok" and all(r[k] == base[k] for k in ("nd", "nu", "nug", "npre", "A", "Z", "cE", "gage")) and not any(abs(a / b - 1) > 0.25 for a, b in zip(r["gE"], base["gE"])):
                    d = self.particles(r)
                    ch = [k for k in ref if math.dist(d[k], ref[k]) > 0.1]
                    if len(ch) == 1 and i not in owner[ch[0]]:
                        owner[ch[0]].append(i)
        for k in ref:
            if len(owner[k]) == 0:
                self.bad.append(("fixed", "%s: no draw decides the direction of particle %s" % (self.tag, k), {"job": self.job({})}))
                return
        ks = [k for k in ref if len(owner[k]) == 2]
        d = numbers(self.stream, base["nd"])
        for k in ks:
            a, b = sorted(owner[k])
            self.pairs.append((k[0], ref[k], (d[a], d[b])))
        self.st["undecided"] += len(ref) - len(ks)
        if len(ks) < 0.7 * len(ref):
            self.bad.append(("fixed", "%s: for %d of %d particles the direction does not depend on two draws" % (self.tag, len(ref) - len(ks), len(ref)), {"job": self.job({})}))
            return
        overs = []
        for i in range(N):
            for j in range(N):
                o = {}
                for k in ks:
                    a, b = sorted(owner[k])
                    o[a], o[b] = (i + 0.5) / N, (j + 0.5) / N
                overs.append(o)
        edge = []
        for x, y in itertools.product((1e-9, 1 - 1e-9), repeat=2):
            edge.append({i: v for k in ks for i, v in zip(sorted(owner[k]), (x, y))})
        js, rs = self.run(overs + edge)
        dirs = collections.defaultdict(list)
        for m, (j, r) in enumerate(zip(js, rs)):
            if r["fate"] != "ok":
                self.bad.append(("fate", "%s: %s" % (self.tag, r["fate"]), {"job": j}))
                return
            if m >= len(overs):
                for n, u, v, w in (("nu", "cu", "cv", "cw"), ("nug", "gu", "gv", "gw"), ("npre", "pu", "pv", "pw")):
                    for x in zip(r[u][:r[n]], r[v][:r[n]], r[w][:r[n]]):
                        if not all(oracle.isnum(t) and math.isfinite(t) for t in x) or abs(sum(t * t for t in x) - 1) > 1e-4:
                            self.bad.append(("edge", "%s: direction %s of a particle for draws at the edge of (0,1)" % (self.tag, list(x)), {"job": j}))
                            return
                continue
            d = self.particles(r)
            if set(d) != set(ref):
                self.st["changed"] += 1
                return  # another decision hangs on these draws: not the layout assumed
            for k in ks:
                dirs[k].append(d[k])
        self.st["cells"] += (len(overs) + len(edge)) * len(ks)
        for k in ks:
            if k[0] == "g":
                # reported directions may include the aberration of the moving source, of the order of its velocity
                w = spread(dirs[k])
            elif k == "p0" and preeq:
                cdf = preeqcdf(self.einc, self.zaid, self.ecm0)
                if cdf is None:
                    self.st["preeq-not-positive"] += 1
                    continue
                self.st["preeq"] += 1
                w = judge(dirs[k], N, cdf, 0.04, 3e-3)
            else:
                w = judge(dirs[k], N, ISO, 3e-3, 3e-3)
            if w:
                self.bad.append(("emission", "%s: particle %s: %s" % (self.tag, k, w), {"job": js[0], "particle": k}))


def preeqcdf(einc, zaid, ecm):
    n = [[float(x) for x in l.split()] for l in open(os.path.join(core.DATA, "preeq-scattering-params.dat")) if l.strip() and not l.startswith("#")]
    a = zaid % 1000
    ex = einc * a / (a + 1.0) - ecm
    p0, p1 = [sum(sum(n[4 * h + k][u] * ex ** u for u in range(6)) * einc ** k for k in range(4)) for h in (0, 1)]
    f = lambda c: p0 * (math.cosh(c) - math.cosh(1)) + p1 * (c + 1)
    if min(p0 * math.sinh(c) + p1 for c in (-1, 1)) <= 1e-3 * abs(p1):
        return None
    return lambda c: f(c) / f(1)


def wide(c, exe, cwd, pairs, tot):
    """The way two numbers become a direction, as found above, must be the way for every particle of many events (every mass
    cell of every reaction; many energies), and no two particles of an event may share a number."""
    way = {}
    for kind in "ng":
        ps = [(v, p) for k, v, p in pairs if k == kind]
        w = [w for w in WAYS if all(fits(v, w, p) for v, p in ps)]
        if len(ps) > 20 and w:
            way[kind] = w[0]
        else:
            c.notes.append("wide: no single rule behind the directions of %s; not used" % ("neutrons" if kind == "n" else "photons"))
    if not way:
        return
    q = c.quick
    todo = []
    for z in list(core.SF) + list(core.NF):
        for e in ((0.0,) if z in core.SF else (1.3, 5.3) if q else (0.1, 1.3, 3.0, 5.3)):
            for i in range(60 if q else 240):
                todo.append((z, e, "s%d;0=0.0001;1=0.0;2=%r;3=0.0" % (1 + i % (6 if q else 24), (i + 0.5) / (60 if q else 240))))
    for z in core.NF:
        for e in (8.0, 14.0, 19.9) if q else range(6, 21):
            todo += [(z, float(e), "s%d" % s) for s in range(1, 13 if q else 60)]
    got = []
    core.explore(exe, [core.event(i, *t) for i, t in enumerate(todo)], cwd, lambda j, r: got.append((j, r)))
    for j, r in sorted(got, key=lambda x: int(x[0][1])):
        z, e, s = todo[int(j[1])]
        if r["fate"] != "ok":
            continue  # C06
        d = numbers(s, r["nd"])
        order = sorted(range(len(d)), key=lambda i: d[i])
        vals = [d[i] for i in order]
        used = {}
        tot["wide_events"] += 1
        for kind, n, keys in (("n", r["nu"], ("cu", "cv", "cw")), ("g", r["nug"], ("gu", "gv", "gw"))):
            if kind not in way:
                continue
            for i in range(n):
                v = [r[k][i] for k in keys]
                f, co, sn = implied(v, way[kind])
                name = "%s%d" % (kind, i)
                tot["wide_particles"] += 1
                for what, x, tol in (("azimuth", f, 1e-7 / max(sn, 1e-3)), ("cosine", co, 1e-7)):
                    lo, hi = bisect.bisect_left(vals, x - tol), bisect.bisect_right(vals, x + tol)
                    m = [order[k] for k in range(lo, hi)]
                    if what == "azimuth" and not m and (x < tol or x > 1 - tol):
                        continue
                    if not m:
                        c.violation("wide", "%d at %g MeV, %s: the %s of particle %s comes from none of the event's random numbers" % (z, e, s, what, name), {"job": j})
                        return
                    free = [k for k in m if k not in used]
                    if not free:
                        c.violation("shared", "%d at %g MeV, %s: particles %s and %s share a random number for their directions" % (z, e, s, used[m[0]], name), {"job": j})
                        return
                    used[free[0]] = name


def main():
    c = core.Check("C25", "model_checking")
    exe = build.program("evh", [build.src("evh.cpp")], "opt")
    core.leveldir(levels.stub())
    rich = core.leveldir(levels.rich())
    oracle.masses()
    import chances
    tab = anisotropy()
    q = c.quick
    ax = [(z, 0.0, 0, 0) for z in core.SF]
    es = [2.53e-8, 0.1, 0.2, 0.5, 0.9, 1.1, 1.23, 1.7, 2.3, 3.2, 3.97, 4.6, 8.1, 9.7, 11.5, 13.3, 14.0, 16.9, 19.9, 20.0] if q else [2.53e-8] + [k / 10 for k in range(1, 201)]
    ax += [(z, e, 0, 0) for z in core.NF for e in es]
    for z in core.NF:
        for e in ([14.1, 18.4] if q else [6.3, 7.7, 10.2, 12.4, 14.1, 15.9, 17.3, 18.4, 19.6]):
            ch = chances.Chances(z, e)
            ax += [(z, e, n, 0.35) for n in range(1, ch.nemit + 1) if ch.open(n)]
    ev = []
    S = c.seed - 1
    for k, (z, e) in enumerate([(98252, 0.0), (92235, 2.53e-8), (94239, 5.0), (93237, 14.0), (94242, 0.0), (92238, 19.0)]):
        ev.append((z, e, "s%d" % (11 + k + 100 * S), "seed %d" % (11 + k + 100 * S), False))
    for z, e, n in [(92238, 14.1, 1), (92235, 18.4, 2), (94239, 12.0, 1), (92238, 19.5, 1)] if q else [(z, e, n) for z in core.NF for e in (12.0, 14.1, 16.2, 18.4, 19.9) for n in (1, 2, 3)]:
        ch = chances.Chances(z, e)
        if n > ch.nemit or not ch.open(n):
            continue
        for pre in (True, False):
            ev.append((z, e, "s%d;1=0.0;2=%r" % (31 + S, 1e-12 if pre else 1 - 1e-9), "n=%d preeq=%s" % (n, pre), pre, n))
    if not q:
        ev += [(z, 0.0 if z in core.SF else e, "s%d" % s, "seed %d" % s, False) for z in list(core.SF) + list(core.NF) for e in ((0.0,) if z in core.SF else (1e-6, 3.0, 8.0)) for s in range(1, 4)]
    tot = collections.Counter()
    pairs = []

    def one(t):
        if t[0] == "axis":
            b = initial.Bench(exe, *t[1], deep=not q)
            axis(b, 10 if q else 24, tab)
            return b.bad, b.st
        z, e, s, tag, pre = t[1][:5]
        if len(t[1]) > 5:
            # find the cell of the first draw that leads to n pre-fission neutrons
            n = t[1][5]
            for cells in (4, 3, 2, 5, 6):
                E = Event(exe, rich, z, e, s + ";0=%r" % ((n + 0.5) / cells), "%d at %g MeV, %s" % (z, e, tag))
                if E.run([{}])[1][0].get("npre") == n:
                    break
            else:
                return [], collections.Counter({"no-such-chance": 1})
        else:
            E = Event(exe, rich, z, e, s, "%d at %g MeV, %s" % (z, e, tag))
        E.explore(8 if q else 12, pre)
        pairs.extend(E.pairs)
        return E.bad, E.st
    with ThreadPoolExecutor(core.NPROC) as ex:
        for t, (bad, st) in zip([("event", e) for e in ev] + [("axis", a) for a in ax], ex.map(one, [("event", e) for e in ev] + [("axis", a) for a in ax])):
            tot.update(st)
            for key, msg, rep in bad:
                c.violation(key, msg, rep)
            c.sample({"case": [str(x) for x in t[1]], **{k: v for k, v in st.items()}})
    if not c.viol:
        wide(c, exe, rich, pairs, tot)
    c.cov = {"states": tot["cells"], "transitions": tot["events"] + tot["executions"], "traces": len(ax) + len(ev), "direction_cells": tot["cells"], "events_replayed": tot["events"] + tot["executions"],
             "particles": tot["particles"], "not_decided": {k: tot[k] for k in ("undecided", "not-decidable", "changed", "preeq-not-positive", "no-such-chance")}, "preequilibrium": tot["preeq"], "wide_events": tot["wide_events"], "wide_particles": tot["wide_particles"],
             "exhaustive": "every cell of a %dx%d (fission axis) or %dx%d (particles) grid of the two draws behind each direction" % ((10, 10, 8, 8) if q else (24, 24, 12, 12)),
             "conformance": "every cell is replayed on the library"}
    c.assumptions = ["the two draws behind a direction are the ones whose change alters this direction and no other quantity"]
    c.finish()


if __name__ == "__main__":
    main()
