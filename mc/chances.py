"""Independent model of the multi-chance fission data (data/multichancefission.dat) for C18 and C19."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, oracle

_t = None


def table():
    global _t
    if _t is None:
        t = {}
        rows = [l.split() for l in open(os.path.join(core.DATA, "multichancefission.dat")) if not l.startswith("#") and l.strip()]
        i = 0
        while i < len(rows):
            z, ne, nn = (int(x) for x in rows[i][:3])
            bar = [float(x) for x in rows[i + 1][:nn + 1]]
            tab = [[float(x) for x in r[:nn + 2]] for r in rows[i + 2:i + 2 + ne]]
            t[z] = (bar, tab)
            i += 2 + ne
        _t = t
    return _t


class Chances:
    def __init__(self, zaid, einc):
        self.zaid, self.einc = zaid, einc
        self.barrier, tab = table()[zaid]
        for i in range(1, len(tab)):
            if einc <= tab[i][0]:
                break
        lo, hi = tab[i - 1], tab[i]
        f = (einc - lo[0]) / (hi[0] - lo[0])
        self.p = [a + f * (b - a) for a, b in zip(lo[1:], hi[1:])]
        n = 0
        while n + 1 < len(self.p) and self.p[n + 1] > 0:
            n += 1
        self.nemit = n
        s = sum(self.p[:n + 1])
        self.p = [x / s for x in self.p[:n + 1]]
        self.pmax = max(self.p)
        m = oracle.masses()
        zc, ac = core.compound(zaid, einc)
        self.sn = [m[1000 * zc + ac - k - 1] + m[1] - m[1000 * zc + ac - k] for k in range(5)]
        # excitation energy left when k neutrons left with no kinetic energy
        self.left = [einc + self.sn[0] - sum(self.sn[:k]) for k in range(n + 1)]

    def open(self, n, margin=0.06):
        """True / False / None (within the energy grid of the barrier)"""
        if n == 0:
            return True
        d = self.left[n] - self.barrier[n]
        return None if abs(d) < margin else d > 0
