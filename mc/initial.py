"""C23: the charge of the fragments; C24: their excitation energies, spins and parities.

Models of P(Z|A) (Wahl's Zp systematics), of the sharing of the excitation energy (rta.dat, ldp.dat) and of P(J) (tables of
temperatures, deformations and spin scaling) say for every sampling decision within the bound which value results.  Every
decision becomes an event of a trace; the trace is turned into the random numbers it needs and replayed in yields mode on the
real library, event by event."""
import collections, math, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, core, levels, oracle, sampling, wahl
from sampling import LOW

DZ = {98252: 7, 94238: 6, 94240: 6, 94242: 6, 94244: 6, 98254: 6}


class Bench(sampling.Group):
    """one reaction, energy and number of pre-fission neutrons: knows its mass distribution and its effective energy"""

    def open(self):
        self.st, self.bad = collections.Counter(), []
        zc, a0 = core.compound(self.zaid, self.einc)
        self.e = self.einc
        if self.n:
            m = sampling.Model(self.zaid, self.einc, self.n, 1.0, "first mode")
            for self.cells in (3, 2, 1, 4, 5):
                if self.cells < self.n:
                    continue
                p, r = self.run(self.head() + self.event(m, [(m.ac // 2, 0.0)], [(LOW, True, True)]), 1, "p")
                if p is not None and len(p) == 1 and p[0][0][1] + p[0][1][1] == m.ac:
                    break
            else:
                return None  # C18 and C19 judge this
            mm = oracle.masses()
            self.e = sampling.excess(p[0], zc, m.ac) - (mm[1000 * zc + m.ac - 1] + mm[1] - mm[1000 * zc + m.ac])
        self.m = sampling.Model(self.zaid, self.einc, self.n, self.e, "first mode")
        return self.m if self.m.margin > (1e-4 if self.n == 0 else 0.04) else None

    def ev(self, a, ztries, spins=(0.05, 0.0, 0.05, 0.0), par=(0.2, 0.8), pair=LOW):
        d = self.pre() + [(a - self.m.amin + 0.5) / (self.m.amax - self.m.amin + 1), 0.0]
        for t in ztries:
            d += t
        return d + list(pair) + list(spins) + list(par) + [0.31, 0.72] * (self.n + 1)

    def replay(self, evs, tag):
        """evs: the draws of each event; the pairs of fragments, or None"""
        dr = self.head()
        for e in evs:
            dr = dr + e
        p, r = self.run(dr, len(evs), tag)
        if p is None or len(p) != len(evs):
            self.bad.append(("run", "%s: a trace of %d events ended with %s, %d pairs written" % (self.name, len(evs), r["fate"], len(p or [])), {"group": self.name}))
            return None
        if r["nd"] != len(dr):
            self.bad.append(("draws", "%s: %d random numbers used, the trace has %d" % (self.name, r["nd"], len(dr)), {"group": self.name}))
        self.st["events"] += len(evs)
        return p


def charges(b):
    m = b.open()
    if m is None:
        b.st["not-decidable"] += 1
        return
    zc, a0 = core.compound(b.zaid, b.einc)
    mm = oracle.masses()
    pe = b.einc + (mm[1000 * zc + a0 - 1] + mm[1] - mm[1000 * zc + a0] if b.einc else 0.0)
    w = wahl.Zp(zc, a0, pe)
    dz = DZ.get(b.zaid, 3)
    evs, want = [], []
    for a in range(m.amin, m.amax + 1):
        d = None if w.near(a) else w.dist(a, dz)
        if d is None:
            b.st["not-decidable"] += 1
            continue
        z0, q, zp = d
        top = max(q.values())
        for k, z in enumerate(sorted(q)):
            r = (k + 0.5) / (2 * dz + 1)
            t = q[z] / top
            # far out the probability depends strongly on the width, hence on the separation energy
            tol = 1e-4 + 1e-4 * (z - zp) ** 2
            for y in ([t * (1 - tol), t * (1 + tol)] if t > 1e-11 else [1e-10]) + ([0.5 * t, 0.5 * (1 + t)] if b.deep else []):
                if y >= 1:
                    continue
                acc = y <= t
                f = z if acc else z0
                # after a rejection: the most probable charge, with a draw that is always accepted
                evs.append(b.ev(a, [(r, y)] + ([] if acc else [(0.5, 0.0)])))
                al = a if a <= m.ac // 2 else m.ac - a
                want.append((f if a <= m.ac // 2 else zc - f, al, "A=%d Z=%d y/threshold=%.8g" % (a, z, y / t if t else 0)))
                b.st["decisions"] += 1 if acc else 2
    # charges for which the mass table has no entry end the run (C15, C21 territory): ask one by one only when needed
    keep = [i for i, (zl, al, _) in enumerate(want) if 1000 * zl + al in mm and 1000 * (zc - zl) + m.ac - al in mm and 0 < zl < zc]
    q = lambda zl, al: mm[1000 * zc + m.ac] - mm[1000 * zl + al] - mm[1000 * (zc - zl) + m.ac - al] + (mm[1000 * zc + m.ac - 1] + mm[1] - mm[1000 * zc + m.ac] + b.e if b.einc else 0.0)
    lowest = lambda al: m.mean[m.ac - al] + m.s[m.ac - al] * sampling.gauss(*LOW)
    keep = [i for i in keep if q(*want[i][:2]) - lowest(want[i][1]) > 1.0]
    b.st["no-mass"] += len(want) - len(keep)
    p = b.replay([evs[i] for i in keep], "z")
    if p is None:
        return
    for i, pr in zip(keep, p):
        zl, al, what = want[i]
        if (pr[0][0], pr[0][1]) != (zl, al) or pr[0][0] + pr[1][0] != zc:
            b.bad.append(("charge", "%s (%s): light fragment Z=%d A=%d, Z=%d A=%d expected" % (b.name, what, pr[0][0], pr[0][1], zl, al), {"group": b.name, "draws": evs[i], "what": what, "got": pr}))
            return  # later events may no longer be aligned with the trace


def grid(name, n):
    """{zaid: values} and the energies of a table file of the library"""
    num = [t for l in open(os.path.join(core.DATA, name)) if not l.startswith("#") for t in l.split()]
    return num


class Tables:
    def __init__(self):
        n = grid("temperatures.dat", 32)
        self.e = [float(x) for x in n[:32]]
        self.t, self.a, self.beta = {}, {}, {}
        for i in range(32, len(n) - 32, 33):
            self.t[int(n[i])] = [float(x) for x in n[i + 1:i + 33]]
        n = grid("ldp.dat", 32)
        off = len(n) % 33
        for i in range(off, len(n) - 32, 33):
            self.a[int(n[i])] = [float(x) for x in n[i + 1:i + 33]]
        for l in open(os.path.join(core.DATA, "deformations.dat")):
            if not l.startswith("#") and len(l) > 50 and l[50] != " ":
                try:
                    z, a = int(l[0:4]), int(l[4:8])
                except ValueError:
                    continue
                if z <= 99 and a <= 199:
                    self.beta[1000 * z + a] = float(l[44:].split()[0])
        self.rt = {}
        for l in open(os.path.join(core.DATA, "rta.dat")):
            t = l.split()
            if t and not t[0].startswith("#"):
                self.rt[abs(int(t[0]))] = {int(t[1]) + k: float(x) for k, x in enumerate(t[3:4 + int(t[2]) - int(t[1])])}
        self.alpha = {}
        for l in open(os.path.join(core.DATA, "spinscalingmodel.dat")):
            t = l.split("#")[0].split()
            if len(t) == 3:
                self.alpha[int(t[0])] = (float(t[1]), float(t[2]))

    def at(self, tab, e):
        k = next(i for i in range(1, 32) if self.e[i] > e) - 1
        return (tab[k + 1] - tab[k]) / (self.e[k + 1] - self.e[k]) * (e - self.e[k]) + tab[k]

    def share(self, zaid, txe, zl, al, zh, ah):
        """excitation energies of the two fragments, the ratio of their temperatures being R_T(Ah)"""
        rt = self.rt.get(zaid, {}).get(ah, 1.0) if zaid in self.rt else 1.2
        ta, th = self.a.get(1000 * zl + al), self.a.get(1000 * zh + ah)
        if ta is None or th is None:
            return None
        x, y = self.at(ta, txe / 2), self.at(th, txe / 2)
        gap = 1.0
        for _ in range(200):
            eh = y / (x * rt * rt + y) * txe
            x0 = x
            x, y = self.at(ta, txe - eh), self.at(th, eh)
            gap = min(gap, abs(abs(x - x0) - 0.01))
            if abs(x - x0) <= 0.01:
                return txe - eh, eh, gap
        return None

    def spins(self, zaid, einc, zcomp, e, z, a, u):
        """P(J): list over J = 0 or 1/2, ..."""
        if 1000 * z + a not in self.t:
            return None
        b2 = self.beta.get(1000 * z + a, 0.2)
        al, sl = self.alpha.get(-zcomp if einc == 0 else zcomp, (1.3, 0.0) if einc == 0 else (1.5, 0.071))
        k = al if e < 0 else al + sl * e
        inertia = 0.4 * a ** (5 / 3) * 1.44 * 0.5 * (1.00866491574 + 1.00727646688) * 931.4940023 * (1 + 0.31 * b2 + 0.44 * b2 * b2) * k
        s2 = inertia * self.at(self.t[1000 * z + a], u) / 197.3269788 ** 2
        j = [i + (0.5 if a % 2 else 0.0) for i in range(50)]
        p = [(2 * x + 1) * math.exp(-x * (x + 1) / (2 * s2)) for x in j]
        t = sum(p)
        return j, [x / t for x in p]


PAIRS = [LOW, (0.3, 0.5), (0.62, 0.4), (0.45, 0.55), (0.9, 0.45), (0.1, 0.6), (0.55, 0.5), (0.4, 0.35)]
FALL = [4.5 / 50, 0.0]


def conditions(b, T):
    m = b.open()
    if m is None:
        b.st["not-decidable"] += 1
        return
    zc, a0 = core.compound(b.zaid, b.einc)
    mm = oracle.masses()
    avail = mm[1000 * zc + m.ac - 1] + mm[1] - mm[1000 * zc + m.ac] + b.e if b.einc else 0.0
    w = wahl.Zp(zc, a0, b.einc + (mm[1000 * zc + a0 - 1] + mm[1] - mm[1000 * zc + a0] if b.einc else 0.0))
    dz = DZ.get(b.zaid, 3)
    evs, want = [], []
    k = 0
    for a in range(m.amin, m.amax + 1):
        d = None if w.near(a) else w.dist(a, dz)
        if d is None:
            continue
        z0, q, zp = d
        light = a <= m.ac // 2
        al = a if light else m.ac - a
        first = True
        for i in sorted(range(len(q)), key=lambda i: abs(i - dz)):
            z = sorted(q)[i]
            zl = z if light else zc - z
            if q[z] < 1e-9 or 1000 * zl + al not in mm or 1000 * (zc - zl) + m.ac - al not in mm:
                continue
            qv = mm[1000 * zc + m.ac] - mm[1000 * zl + al] - mm[1000 * (zc - zl) + m.ac - al] + avail
            tke = lambda pr: m.mean[m.ac - al] + m.s[m.ac - al] * sampling.gauss(*pr)
            js = [(None, None)]
            if first or b.deep:
                js += [(j, s) for j in range(0, 16 if b.deep else 12) for s in (-1, 1)]
                first = False
            for j, s in js:
                for t in range(len(PAIRS)):
                    k += 1
                    pr = PAIRS[k % len(PAIRS)]
                    if qv - tke(pr) > 3.0:
                        break
                else:
                    continue
                sh = T.share(b.zaid, qv - tke(pr), zl, al, zc - zl, m.ac - al)
                if sh is None or sh[2] < 1e-4:
                    b.st["no-table"] += 1
                    continue
                cell = [(i + 0.5) / (2 * dz + 1), 0.0]
                if j is None:
                    d = 1e-7
                    par = [(0.5 - d, 0.5 + d), (0.5 + d, 0.5 - d), (0.5 - d, 0.5 - d), (0.5 + d, 0.5 + d)][k % 4]
                    evs.append(b.ev(a, [cell], FALL + FALL, par, pr))
                    want.append((zl, al, sh, 4, 4, par, "A=%d Z=%d TKE=%.3f" % (a, z, tke(pr))))
                else:
                    # the two fragments probe different spins
                    par = (0.0001, 0.9999)
                    sp, exp = [], []
                    for (zz, aa, u, jj) in ((zl, al, sh[0], j), (zc - zl, m.ac - al, sh[1], (j + 5) % 12)):
                        ps = T.spins(b.zaid, b.einc, 1000 * zc + m.ac, b.e, zz, aa, u)
                        if ps is None:
                            break
                        y = ps[1][jj] * (1 + s * (3e-3 if b.n == 0 else 1e-2))
                        sp += [(jj + 0.5) / 50, y] + ([] if s < 0 else FALL)
                        exp.append(jj if s < 0 else 4)
                    if len(exp) < 2:
                        b.st["no-table"] += 1
                        continue
                    evs.append(b.ev(a, [cell], sp, par, pr))
                    want.append((zl, al, sh, exp[0], exp[1], par, "A=%d Z=%d J index %d, draw %s its probability" % (a, z, j, "below" if s < 0 else "above")))
                b.st["decisions"] += 4 if j is None or s < 0 else 6
    p = b.replay(evs, "c")
    if p is None:
        return
    seen = collections.Counter()
    for d, (zl, al, sh, jl, jh, par, what), pr in zip(evs, want, p):
        rep = {"group": b.name, "draws": d, "what": what, "got": pr}
        if (pr[0][0], pr[0][1]) != (zl, al):
            b.bad.append(("fragment", "%s (%s): light fragment Z=%d A=%d, Z=%d A=%d expected" % (b.name, what, pr[0][0], pr[0][1], zl, al), rep))
            return
        tol = 2e-3 if b.n == 0 else 8e-3
        if abs(pr[0][3] - sh[0]) > tol or abs(pr[1][3] - sh[1]) > tol:
            b.bad.append(("sharing", "%s (%s): excitation energies %.3f and %.3f MeV, %.3f and %.3f expected" % (b.name, what, pr[0][3], pr[1][3], sh[0], sh[1]), rep))
            return
        for side, a, j, x in (("light", al, jl, pr[0]), ("heavy", m.ac - al, jh, pr[1])):
            if abs(x[4] - (j + (0.5 if a % 2 else 0.0))) > 0.01:
                b.bad.append(("spin", "%s (%s): spin %g of the %s fragment, %g expected" % (b.name, what, x[4], side, j + (0.5 if a % 2 else 0)), rep))
                return
        for i in (0, 1):
            # which half of the draws gives which parity is not prescribed; that they are halves is
            if seen.setdefault((i, par[i] < 0.5), pr[i][5]) != pr[i][5] or seen.get((i, par[i] >= 0.5)) == pr[i][5]:
                b.bad.append(("parity", "%s (%s): parity %d of fragment %d for a draw of %g" % (b.name, what, pr[i][5], i, par[i]), rep))
                return


def main():
    prop = sys.argv[1]
    c = core.Check(prop, "model_checking")
    exe = build.program("evh", [build.src("evh.cpp")], "opt")
    core.leveldir(levels.stub())
    oracle.masses()
    import chances
    gs = [(z, 0.0, 0, 0) for z in core.SF]
    low = [2.53e-8, 0.7, 2.2, 4.9] if c.quick else [2.53e-8, 1e-3, 0.3, 0.7, 1.1, 1.4, 1.7, 2.2, 3.1, 3.9, 4.9]
    gs += [(z, e, 0, 0) for z in core.NF for e in low]
    for z in core.NF:
        for e in ([13.3, 19.7] if c.quick else [6.3, 7.7, 9.1, 10.2, 11.7, 12.4, 13.3, 14.1, 15.9, 17.3, 18.4, 19.6, 20.0]):
            ch = chances.Chances(z, e)
            for n in range(0, ch.nemit + 1):
                if ch.open(n):
                    for kf in ([0.35] if c.quick else [0.05, 0.35, 0.8]):
                        if n or kf == 0.35:
                            gs.append((z, e, n, kf))
    T = Tables() if prop == "C24" else None
    tot = collections.Counter()

    def one(t):
        b = Bench(exe, *t, deep=not c.quick)
        if prop == "C23":
            charges(b)
        else:
            conditions(b, T)
        return t, b
    with ThreadPoolExecutor(core.NPROC) as ex:
        for t, b in ex.map(one, gs):
            tot.update(b.st)
            for key, msg, rep in b.bad:
                c.violation(key, msg, rep)
            c.sample({"reaction": t, "events": b.st["events"], "decisions": b.st["decisions"]})
    c.cov = {"states": tot["events"], "transitions": tot["decisions"], "traces": len(gs), "events_replayed": tot["events"], "sampling_decisions": tot["decisions"],
             "not_decided": {k: tot[k] for k in ("not-decidable", "no-mass", "no-table")},
             "exhaustive": "every mass of every mass distribution and " + ("every charge of its range, both sides of its threshold" if prop == "C23" else "every charge of its range, every spin index below 12 (16) on both sides of its probability, for the listed reactions and energies"),
             "conformance": "model traces are replayed on the library in yields mode"}
    c.assumptions = ["the mass and kinetic-energy distributions are those of C18"]
    c.finish()


if __name__ == "__main__":
    main()
