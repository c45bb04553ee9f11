"""Deterministic synthetic discrete-level files (the 'discreteLevels.dat' format).

The repository ships without data/discreteLevels.dat, so every event-mode exploration supplies its own file through the
documented lookup (current directory first).  `rich()` covers every nucleus a fragment or its neutron-evaporation daughters
can be (minus a deterministic tenth, which exercises the "nucleus not in the file" path) with small schemes: spins matching
A, both parities, half-lives from 0 to seconds, branchings that do and do not need renormalising, levels with no gamma.
"""
HALF = [0.0, 0.0, 1e-12, 5e-10, 2e-9, 3e-8, 1e-6, 1e-3, 10.0]


def _rnd(*k):
    x = 1469598103934665603
    for v in k:
        x = ((x ^ (v + 0x9e3779b9)) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
        x ^= x >> 29
    return x


def fmt(nuclei):
    """nuclei: list of (zaid, [level]); level = (E, J, parity, halflife, [(final, prob, icc)])"""
    out = ["# synthetic discrete levels\n"]
    for zaid, lev in nuclei:
        out.append("%6s%6d%5d\n" % ("", zaid, len(lev)))
        for e, j, p, h, gs in lev:
            out.append("%10.6f%5.1f%3d%13.5e%3d\n" % (e, j, p, h, len(gs)))
            for f, pr, ic in gs:
                out.append("%3d%9.5f%10.4f\n" % (f, pr, ic))
    return "".join(out)


def scheme(z, a, icc=True, halflives=True):
    n = 1 + _rnd(z, a, 1) % 8
    half = 0.5 if a % 2 else 0.0
    if a % 2:
        j0, p0 = 0.5 + _rnd(z, a, 2) % 4, 1 if _rnd(z, a, 3) % 2 else -1
    elif z % 2 == 0:
        j0, p0 = 0.0, 1
    else:
        j0, p0 = float(1 + _rnd(z, a, 2) % 3), 1 if _rnd(z, a, 3) % 2 else -1
    lev = [(0.0, j0, p0, -1.0, [])]
    e = 0.0
    for i in range(1, n):
        e += 0.02 + (_rnd(z, a, i, 4) % 400) / 1000.0
        j = half + _rnd(z, a, i, 5) % 7
        p = 1 if _rnd(z, a, i, 6) % 2 else -1
        h = HALF[_rnd(z, a, i, 7) % len(HALF)] if halflives else 0.0
        ng = min(i, _rnd(z, a, i, 8) % 4)
        finals = sorted(set(_rnd(z, a, i, g, 9) % i for g in range(ng)))
        gs = []
        for g, f in enumerate(finals):
            pr = (1 + _rnd(z, a, i, g, 10) % 9) / 10.0
            ic = [0.0, 0.0, 0.2, 2.5][_rnd(z, a, i, g, 11) % 4] if icc else 0.0
            gs.append((f, pr, ic))
        lev.append((round(e, 6), j, p, h, gs))
    return lev


def nuclei_range():
    for a in range(56, 188):
        zc = a * 0.392
        for z in range(int(zc) - 8, int(zc) + 9):
            yield z, a


def rich(icc=True, halflives=True, sparse=True):
    out = []
    for z, a in nuclei_range():
        if sparse and _rnd(z, a, 77) % 10 == 0:
            continue
        out.append((1000 * z + a, scheme(z, a, icc, halflives)))
    return fmt(out)


def stub():
    return "# no level schemes: every nucleus falls back to its default ground state\n"
