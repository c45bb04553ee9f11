"""Wahl's Zp systematics (LA-13928, Tables 2 and 3, Eqs. 10-19): P(Z|A) for one fissioning nucleus and excitation energy"""
import math

# parameter: (low-energy coefficients, high-energy coefficients)
T = {
    "sig140": ((0.566, 0, 0.0064, 0.0109, 0), (0.542, 1.310, 0.033, 0, -0.005)),
    "del140": ((-0.487, 0, 0.0180, 0, -0.00203), (-0.428, 0, 0, 0.164, -0.0116)),
    "Fz140": ((1.207, 0, -0.0420, 0, 0.0022), (1, 0, 0, 0, 0)),
    "Fn140": ((1.076, 0, 0, 0, 0), (1, 0, 0, 0, 0)),
    "sigSL": ((-0.0038, 0, 0, 0, 0), (0, 0, 0, 0, 0)),
    "delSL": ((-0.0080, 0, 0, 0, 0), (0, 0, 0, 0, 0)),
    "FzSL": ((0.0030, 0, 0, 0, 0), (0, 0, 0, 0, 0)),
    "FnSL": ((-0.0006, 0, 0, 0, 0), (0, 0, 0, 0, 0)),
    "SL50": ((0.191, 0, -0.0076, 0, 0), (0.191, 0, -0.0076, 0, 0)),
    "sig50": ((0.356, 0.060, 0, 0, 0), (0.542, 1.310, 0.033, 0, -0.005)),
    "delmax": ((0.699, 0, 0, 0, 0), (0, 0, 0, 0, 0)),
    "sigSLW": ((-0.045, 0.0094, 0, 0, 0), (0, 0, 0, 0, 0)),
    "delSLW": ((0, -0.0045, 0, 0, 0), (0, 0, 0, 0, 0)),
    "FzSLW": ((0.159, -0.028, 0, 0, 0), (0, 0, 0, 0, 0)),
    "FnSLW": ((0.039, 0, 0, 0, 0), (0, 0, 0, 0, 0)),
}


def eq17(c, z, a, pe):
    return c[0] + c[1] * (z - 92) + c[2] * (a - 236) + c[3] * (pe - 6.551) + c[4] * (a - 236) ** 2


def eq19(c, z, pe):
    p1, p2 = c[0] + c[2] * (z - 92), c[1] + c[3] * (z - 92)
    return p1 + (p2 - p1) * (1 - math.exp(-c[4] * pe))


def params(z, a, pe):
    p = {}
    for k, (lo, hi) in T.items():
        if pe <= 8.0:
            p[k] = eq17(lo, z, a, pe)
        elif pe < 20.0:
            w = (pe - 8.0) / 12.0
            h = eq17(hi, z, a, 20.0) if k == "FnSL" else eq19(hi, z, 20.0)
            p[k] = (1 - w) * eq17(lo, z, a, 8.0) + w * h
        else:
            p[k] = eq19(hi, z, pe)
    return p


class Zp:
    def __init__(self, zf, af, pe):
        p = self.p = params(zf, af, pe)
        f1 = min(1.0, max(0.0, (250.0 - af) / 14.0))
        amax = f1 * (50.0 * af / zf - p["delmax"] / p["SL50"]) + (1 - f1) * (50.0 - p["delmax"]) * af / zf
        self.zf, self.af = zf, af
        self.b1, self.b2 = 70.0, 77.0 + 0.036 * (af - 236)
        self.ba, self.bb = af - amax, amax
        self.b4 = (p["delmax"] - p["del140"] + amax * p["SL50"] + 140 * p["delSL"]) / (p["SL50"] + p["delSL"])
        self.b3, self.b5, self.b6 = af - self.b4, af - self.b2, af - self.b1
        self.s50 = p["sig50"] if p["sig50"] > 0 else p["sig140"]

    def ordered(self):
        b = [self.b1, self.b2, self.b3, self.ba, self.bb, self.b4, self.b5, self.b6]
        return all(x < y for x, y in zip(b, b[1:]))

    def near(self, a):
        """too close to a region boundary to tell which region it is in"""
        return any(abs(a - b) < 1e-6 for b in (self.b1, self.b2, self.b3, self.ba, self.bb, self.b4, self.b5, self.b6))

    def shape(self, a):
        """(displacement, width, Fz, Fn); on a boundary the outer region holds, as it is applied last"""
        p = self.p
        if self.ordered():
            if a <= self.b1 or a >= self.b6:
                d = p["del140"] + p["delSL"] * (self.b5 - 140)
                return (d if a >= self.b6 else -d), p["sig140"] + p["sigSL"] * (self.b5 - 140), p["Fz140"], p["Fn140"]
            if a <= self.b2 or a >= self.b5:
                d5, s5 = p["del140"] + p["delSL"] * (self.b5 - 140), p["sig140"] + p["sigSL"] * (self.b5 - 140)
                x = self.b2 - a if a <= self.b2 else a - self.b5
                d = d5 - p["delSLW"] * x
                return (-d if a <= self.b2 else d), s5 + p["sigSLW"] * x, p["Fz140"] + p["FzSLW"] * x, p["Fn140"] + p["FnSLW"] * x
            if self.b3 <= a <= self.ba:
                return -p["delmax"] - p["SL50"] * (a - self.ba), self.s50, 1.0, 1.0
            if self.ba <= a <= self.bb:
                return -p["delmax"] + (a - self.ba) * 2 * p["delmax"] / (self.bb - self.ba), p["sig140"] - p["sigSL"] * (140 - self.bb), 1.0, 1.0
            if self.bb <= a <= self.b4:
                return p["delmax"] - p["SL50"] * (a - self.bb), self.s50, 1.0, 1.0
            h = a if a >= self.b4 else self.af - a
            d = p["del140"] + p["delSL"] * (h - 140)
            return (d if a >= self.b4 else -d), p["sig140"] + p["sigSL"] * (h - 140), p["Fz140"] + p["FzSL"] * (h - 140), p["Fn140"] + p["FnSL"] * (h - 140)
        return None

    def dist(self, a, dz):
        """most probable charge and {Z: P(Z|a)} over the dz charges on either side of it, normalised"""
        s = self.shape(a)
        if s is None:
            return None
        d, c, fz, fn = s
        zp = self.zf / self.af * a + d
        z0 = math.floor(zp + 0.5)
        if abs(zp + 0.5 - round(zp + 0.5)) < 1e-9:
            return None
        if c <= 0:
            return z0, {z: float(z == z0) for z in range(z0 - dz, z0 + dz + 1)}, zp
        q = {}
        for z in range(z0 - dz, z0 + dz + 1):
            f = (fz if z % 2 == 0 else 1 / fz) * (fn if (a - z) % 2 == 0 else 1 / fn)
            q[z] = f * 0.5 * (math.erf((z - zp + 0.5) / (math.sqrt(2) * c)) - math.erf((z - zp - 0.5) / (math.sqrt(2) * c)))
        t = sum(q.values())
        return z0, {z: q[z] / t for z in q}, zp
