"""C19: number and energies of the pre-fission neutrons.

Model: multichancefission.dat (chances.py), masses.dat.  For each reaction and energy every cell of the first draw (a grid of
60 resolves every division into up to 6 equal cells; the quick tier visits the cells at the possible edges) is replayed on the library, and for every chance both sides of its
acceptance threshold; the resulting probability of each n must be the interpolated one, renormalised over the open chances.
For each open chance the draws that choose the neutron energies are enumerated on a grid."""
import collections, itertools, math, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, core, levels, oracle
from chances import Chances

G = 60
TINY = 1e-9


class Reaction:
    def __init__(self, exe, cwd, zaid, einc):
        self.exe, self.cwd, self.zaid, self.einc = exe, cwd, zaid, einc
        self.bad, self.n = [], collections.Counter()

    def job(self, draws):
        return core.event("p", self.zaid, self.einc, "s7;" + ";".join("%d=%r" % (i, d) for i, d in enumerate(draws)))

    def run(self, lists):
        js = [self.job(d) for d in lists]
        rs = core.run_batch(self.exe, js, self.cwd)
        self.n["executions"] += len(js)
        out = []
        for j, r in zip(js, rs):
            if r["fate"] != "ok":
                self.bad.append(("fate", "%d at %g MeV: %s" % (self.zaid, self.einc, r["fate"]), {"job": j}))
                out.append(None)
            else:
                out.append(r)
        return out

    def nums(self, lists):
        return [None if r is None else r["npre"] for r in self.run(lists)]

    def v(self, key, msg, rep=None):
        self.bad.append((key, "%d at %g MeV: %s" % (self.zaid, self.einc, msg), rep))


EDGES = [0, 11, 12, 14, 15, 19, 20, 23, 24, 29, 30, 35, 36, 39, 40, 44, 45, 47, 48, 59]


def fill(ask, full):
    """the answer in every grid cell: all of them, or those next to the possible cell edges and, where two neighbours differ
    although no edge is expected between them, the ones in between"""
    ii = list(range(G)) if full else EDGES
    got = dict(zip(ii, ask(ii)))
    if not full:
        more = []
        for a, b in zip(EDGES, EDGES[1:]):
            if got[a] == got[b]:
                for i in range(a + 1, b):
                    got[i] = got[a]
            else:
                more += range(a + 1, b)
        if more:
            got.update(zip(more, ask(more)))
    return [got[i] for i in range(G)]


def number(R, full):
    """distribution of n"""
    ch = Chances(R.zaid, R.einc)
    grid = [(i + 0.5) / G for i in range(G)]
    first = fill(lambda ii: R.nums([[grid[i], TINY, 1e-4, 0.0] for i in ii]), full)
    if None in first:
        return
    hit = collections.Counter(first)
    for n in hit:
        if n > ch.nemit or ch.p[n] <= 0:
            R.v("zero-probability", "%d pre-fission neutrons, a chance of probability 0" % n, {"first": first})
        elif ch.open(n) is False:
            R.v("closed", "%d pre-fission neutrons, but the residue is left %.2f MeV below its barrier" % (n, ch.barrier[n] - ch.left[n]), {"first": first})
    want = [n for n in range(ch.nemit + 1) if ch.p[n] > 0 and ch.open(n)]
    if any(ch.open(n) is None for n in range(ch.nemit + 1)):
        R.n["within_grid_of_barrier"] += 1
        return
    if R.bad:
        return
    # cells answering 0 because they were rejected and fell back on (1e-4, 0)
    if len(want) > 1:
        alt = grid[first.index(want[1])] if want[1] in first else None
        if alt is None:
            return R.v("missing", "chance %d (probability %.4g) is never chosen" % (want[1], ch.p[want[1]]), {"first": first})
        zero = [i for i in range(G) if first[i] == 0]
        edge = [i for i in zero if full or i - 1 not in zero or i + 1 not in zero]
        again = dict(zip(edge, R.nums([[grid[i], TINY, alt, 0.0] for i in edge])))
        for i in zero:  # between two edges that agree
            again.setdefault(i, again.get(i - 1))
        cells = {n: [i for i in range(G) if first[i] == n] for n in want}
        cells[0] = [i for i in zero if again[i] == 0]
    else:
        # only one chance: everything must give it, whatever the second draw
        cells = {0: list(range(G))}
        hi = R.nums([[x, y, x, y, x, y] for x in (0.01, 0.3, 0.7, 0.999) for y in (TINY, 0.5, 0.999)])
        if any(hi):
            R.v("below-threshold", "pre-fission neutrons although only first-chance fission is possible", {"n": hi})
        R.n["single_chance"] += 1
        return
    for n in want:
        if not cells.get(n):
            return R.v("missing", "chance %d (probability %.4g) is never chosen" % (n, ch.p[n]), {"first": first})
    R.n["cells"] += G
    tot = sum(ch.p[n] for n in want)
    scale = ch.pmax / max(len(cells[n]) for n in want) / 1.0
    w0 = max(len(cells[n]) for n in want)

    def accepted(n, y):
        fb = (1e-4, 0.0) if n else (grid[cells[want[1]][0]], 0.0)
        got = R.nums([[grid[cells[n][len(cells[n]) // 2]], y, fb[0], fb[1]]])[0]
        R.n["thresholds"] += 1
        return got == n

    def threshold(n):
        lo, hi = 0.0, 1.0
        if accepted(n, 1 - 1e-12):
            return 1.0
        while hi - lo > 1e-6 * hi and hi > 1e-9:
            m = (lo + hi) / 2
            lo, hi = (m, hi) if accepted(n, m) else (lo, m)
        return (lo + hi) / 2
    t = {n: ch.p[n] / ch.pmax * w0 / len(cells[n]) for n in want}
    ok = all(len(cells[n]) == w0 for n in want)
    for n in want:
        if not ok:
            break
        ok = (t[n] * (1 - 1e-5) <= 0 or accepted(n, t[n] * (1 - 1e-5))) and (t[n] * (1 + 1e-5) >= 1 or not accepted(n, t[n] * (1 + 1e-5)))
    if not ok:  # the scheme may differ (another envelope): compare the probabilities themselves
        m = {n: len(cells[n]) * threshold(n) for n in want}
        s = sum(m.values())
        for n in want:
            if abs(m[n] / s - ch.p[n] / tot) > 2e-4:
                R.v("probability", "%d pre-fission neutrons with probability %.5f, the shipped data give %.5f" % (n, m[n] / s, ch.p[n] / tot),
                    {"measured": m, "model": ch.p, "cells": {k: len(v) for k, v in cells.items()}})
                break
    R.cells = cells
    R.want = want


def fine(R):
    """the probabilities at one more energy: the cells are taken to be equal, as many as there are chances (with or
    without those of probability 0); each chance is asked
    on both sides of its threshold.  Any other answer sends the energy to the full exploration of number()."""
    ch = Chances(R.zaid, R.einc)
    if any(ch.open(n) is None for n in range(ch.nemit + 1)):
        R.n["within_grid_of_barrier"] += 1
        return
    want = [n for n in range(ch.nemit + 1) if ch.p[n] > 0 and ch.open(n)]
    if len(want) < 2:
        return number(R, False)
    for k in sorted({ch.nemit + 1, len(ch.barrier)}):
        cell = lambda n: (n + 0.5) / k
        lists, exp = [], []
        for n in want:
            t = ch.p[n] / ch.pmax
            fb = cell(want[1]) if n == 0 else cell(0)
            for y in (t * (1 - 1e-5), t * (1 + 1e-5)):
                if 0 < y < 1:
                    lists.append([cell(n), y, fb, 0.0])
                    exp.append(n if y <= t else (want[1] if n == 0 else 0))
        got = R.nums(lists)
        R.n["thresholds"] += len(lists)
        if R.bad or got == exp:
            return
    R.n["fine_to_full"] += 1
    number(R, True)


def energies(R, deep):
    ch = Chances(R.zaid, R.einc)
    grid = [(i + 0.5) / G for i in range(G)]
    zc, ac = core.compound(R.zaid, R.einc)
    ks = [0.0, 0.02, 0.07, 0.15, 0.3, 0.5, 0.7, 0.85, 0.95, 0.999999] if deep else [0.0, 0.05, 0.3, 0.8, 0.999999]
    for n in R.want:
        if n == 0:
            continue
        r1 = grid[R.cells[n][0]]
        lists = []
        for pre in (0.0, 1 - 1e-9):
            for kk in itertools.product(ks if n < 3 else ks[::2], repeat=n):
                for sm in (0.0, 0.999999) if n > 1 and not deep else (0.0, 0.5, 0.999999):
                    lists.append([r1, 0.0, pre] + [x for k in kk for x in (k, 0.0, sm)])
        for d, r in zip(lists, R.run(lists)):
            if r is None:
                continue
            R.n["energy_points"] += 1
            rep = {"job": R.job(d)}
            if r["npre"] != n:
                R.v("number", "%d pre-fission neutrons announced, %d sampled" % (r["npre"], n), rep)
                break
            if len(r["pE"]) != n or not all(oracle.isnum(x) and x > 0 for x in r["pE"]):
                R.v("energy-sign", "pre-fission neutron energies %s" % r["pE"], rep)
                break
            # excitation of the fissioning nucleus from the fragments, and from the neutrons
            q = oracle.mx(zc, ac - n) - oracle.mx(r["Z"][0], r["A"][0]) - oracle.mx(r["Z"][1], r["A"][1])
            es = sum(r["KE"]) + sum(r["U"]) - q
            if es < ch.barrier[n] - 2e-3:
                R.v("barrier", "n=%d: the residue has %.3f MeV, its fission barrier is %.3f MeV" % (n, es, ch.barrier[n]), rep)
                break
            p = [0.0, 0.0, math.sqrt(2 * oracle.MN * R.einc)]
            left, a, bad = ch.left[n], ac, None
            for i in range(n):
                m = oracle.mass(zc, a)
                vn = math.sqrt(2 * r["pE"][i] / oracle.MN)
                vl = [vn * x for x in oracle.vec(r, "p", i)]
                vc = [x - y / m for x, y in zip(vl, p)]
                left -= 0.5 * oracle.MN * oracle.dot(vc, vc)
                p = [x - oracle.MN * y for x, y in zip(p, vl)]
                a -= 1
            if abs(left - es) > 0.06 * n + 0.03:
                R.v("balance", "n=%d: the neutrons leave %.3f MeV, the fragments share %.3f MeV" % (n, left, es), rep)
                break


def main():
    c = core.Check("C19", "model_checking")
    exe = build.program("evh", [build.src("evh.cpp")], "opt")
    cwd = core.leveldir(levels.stub())
    if c.quick:
        es = [2.53e-8, 1.7, 4.4, 5.2, 5.8, 6.3, 7.4, 9.0, 10.8, 12.3, 13.75, 15.6, 17.5, 18.9, 20.0]
        deep = {7.4, 18.9}
    else:
        es = [2.53e-8, 1e-3, 0.1] + [round(0.3 + 0.35 * i, 3) for i in range(57)] + [0.5 * i for i in range(1, 41)]
        deep = set(round(0.3 + 0.35 * i, 3) for i in range(15, 57, 3)) | {20.0}
    todo = [(z, e) for e in sorted(set(es), reverse=True) for z in core.NF]
    # a fine grid of energies, offset from the points of the shipped tables
    finer = [(z, round(e0 + (0.25 if c.quick else 0.05) * i + 0.013 * (z % 7), 4)) for z in core.NF for e0 in [5.1] for i in range(59 if c.quick else 296)]
    finer = set(t for t in finer if t[1] < 20 and t not in todo)
    todo += sorted(finer, reverse=True)
    tot = collections.Counter()

    def one(t):
        R = Reaction(exe, cwd, *t)
        R.cells, R.want = {}, []
        if t in finer:
            fine(R)
            return t, R
        number(R, not c.quick)
        if not R.bad and t[1] in deep:
            energies(R, not c.quick)
        return t, R
    with ThreadPoolExecutor(core.NPROC) as ex:
        for t, R in ex.map(one, todo):
            tot.update(R.n)
            tot["reactions"] += 1
            for k, m, rep in R.bad:
                c.violation(k, m, rep)
            if R.want:
                c.sample({"reaction": t, "chances": R.want, "executions": R.n["executions"]})
    # spontaneous fission
    for z in core.SF:
        R = Reaction(exe, cwd, z, 0.0)
        if any(R.nums([[x, y, 0.3] for x in (0.0, 0.3, 0.6, 0.999999) for y in (0.0, 0.5)])):
            R.v("spontaneous", "spontaneous fission with pre-fission neutrons")
        tot.update(R.n)
        for k, m, rep in R.bad:
            c.violation(k, m, rep)
    c.cov = {"states": tot["executions"], "transitions": tot["cells"] + tot["thresholds"] + tot["energy_points"], "executions": tot["executions"],
             "reactions_x_energies": tot["reactions"], "first_chance_only": tot["single_chance"], "cells_of_the_choice": tot["cells"],
             "acceptance_thresholds": tot["thresholds"], "fine_grid_energies": len(finer), "fine_to_full": tot["fine_to_full"], "energy_choices": tot["energy_points"], "skipped_within_grid_of_barrier": tot["within_grid_of_barrier"],
             "exhaustive": "every cell of the choice of n, every acceptance threshold, for the listed reactions and energies",
             "conformance": "every model decision is replayed as an event of the library"}
    c.assumptions = ["energies to 0.1 MeV (the library's energy bins)", "interpolation of the shipped probabilities is linear in the incident energy"]
    c.finish()


if __name__ == "__main__":
    main()
