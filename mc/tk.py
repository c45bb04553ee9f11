"""C11, C12: the analysis package on every small history file.

Enumerated: all history files with one event (0-2 neutrons and photons per fragment, 0-2 pre-fission neutrons), all with two
and three events over reduced event shapes, with and without photon ages, in several value families (all values distinct;
values colliding with each other and with every threshold used; symmetric fission), plus the shipped reference histories.
Reference: an independent parser/model of the file; every accessor and every derived observable is compared.
"""
import sys
sys.dont_write_bytecode = True
import os
HERE = os.path.dirname(os.path.abspath(__file__))
VPY = "/opt/vp/venv/bin/python"
if os.path.exists(VPY) and sys.executable != VPY and os.environ.get("TK_REEXEC") is None:
    os.environ["TK_REEXEC"] = "1"
    os.execv(VPY, [VPY] + sys.argv)
elif os.environ.get("TK_REEXEC") is None:
    try:
        import numpy
    except ImportError:
        os.environ["TK_REEXEC"] = "1"
        os.execvp("python3-vt", ["python3-vt"] + sys.argv)
import bisect, collections, contextlib, glob, io, itertools, math, tempfile, time, warnings
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, HERE)
import core, cli
sys.path.insert(0, os.path.join(core.REPO, "tools"))
import numpy as np
warnings.simplefilter("ignore")
PROP = sys.argv[1]

# ---------------------------------------------------------------- history files
EN = [[0.217, 1.384, 2.951, 0.663, 4.127], [0.5, 1.0, 0.5, 1.0, 2.0]]
EG = [[0.143, 0.871, 1.302, 2.447, 0.365], [0.5, 0.1, 1.0, 0.5, 0.1]]
AGES = [[0.0, 3.1e-10, 4.7e-9, 2.2e-7, 1.3e-2], [0.0, 1e-8, 5e-8, 1e-6, 1e-8]]
DIRS = [(0.36, 0.48, 0.8), (-0.6, 0.0, 0.8), (0.0, -0.8, -0.6), (0.8, 0.36, -0.48), (1.0, 0.0, 0.0), (0.48, -0.6, 0.64)]


def frag(fam, ev, i, a, z, nn, ng, npre):
    k = 3 * ev + 5 * i
    f = 0 if fam == 0 else 1
    d = lambda n: list(DIRS[(k + n + fam) % len(DIRS)])
    u = [11.25 + 1.37 * k, 8.5, 14.75][fam]
    ke = [70.113 + 3.417 * k, 85.25 - 5 * i + [0, 0.5, 0, 1][ev % 4], 82.004 + 2.03 * ev][fam]
    pre = [x * (4800 + 10 * k) * (1 if i == 0 else -1) for x in DIRS[(k + 1) % len(DIRS)]]
    post = [x * 0.97 + 3 * (j + 1) for j, x in enumerate(pre)]
    return {"A": a, "Z": z, "U": u, "J": [0.5 * (k % 9), 4.0, 1.5][fam], "P": 1 if (k + fam) % 3 else -1, "KE": ke, "KEp": ke - 0.7 * nn - 0.11, "nn": nn, "ng": ng, "npre": npre,
            "pre": [round(x, 3) for x in pre], "post": [round(x, 3) for x in post],
            "cm": [d(n + 2) + [round(EN[f][(k + n) % 5] * (0.61 if f == 0 else 1.0), 3)] for n in range(nn)],
            "lab": [d(n) + [EN[f][(k + n + 1) % 5]] for n in range(nn)],
            "g": [d(n + 1) + [EG[f][(k + n) % 5], AGES[f][(k + n + ev) % 5]] for n in range(ng)],
            "p": [d(n + 3) + [EN[f][(k + n + 3) % 5]] for n in range(npre)]}


def make(fam, shapes):
    """shapes: per event ((nnL, ngL), (nnH, ngH), npre)"""
    evs = []
    pre = any(s[2] for s in shapes)
    ac, zc = (236, 92) if pre or fam == 1 else (252, 98)
    for ev, ((a, b), (c, d), p) in enumerate(shapes):
        if fam == 0:
            al = 92 + 4 * (ev % 5) if ev < 5 else 84 + ev % 30
        elif fam == 1:
            al = 96
        else:
            al = (ac - p) // 2
        zl = [38 + (ev if ev < 5 else ev % 6), 40, zc // 2][fam]
        evs.append([frag(fam, ev, 0, al, zl, a, b, 0), frag(fam, ev, 1, ac - p - al, zc - zl, c, d, p)])
    return (92235, 14.0) if (ac, zc) == (236, 92) else (98252, 0.0), evs


def text(reac, w, evs):
    o = ["# %5d %g %g\n" % (reac[0], reac[1], w)]
    n3 = lambda v: "%.3f %.3f %.3f %.3f " % tuple(v[:4])
    for ev in evs:
        for f in ev:
            o.append(" %d %d %.3f %.1f %d %.3f %.3f %d %d %d\n" % (f["A"], f["Z"], f["U"], f["J"], f["P"], f["KE"], f["KEp"], f["nn"], f["ng"], f["npre"]))
            o.append(" %.3f %.3f %.3f %.3f %.3f %.3f\n" % tuple(f["pre"] + f["post"]))
            for k in ("cm", "lab"):
                if f["nn"]:
                    o.append("".join(n3(x) for x in f[k]) + "\n")
            if f["ng"]:
                o.append("".join(n3(x) + ("%g " % x[4] if w < 0 else "") for x in f["g"]) + "\n")
            if f["npre"]:
                o.append("".join(n3(x) for x in f["p"]) + "\n")
    return "".join(o)


# ---------------------------------------------------------------- comparison
def plain(x):
    if isinstance(x, np.ndarray):
        return [plain(y) for y in x]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def same(a, b, tol=1e-9):
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(b, str) or isinstance(a, str):
        return a == b
    if isinstance(a, (list, tuple)) or a is None:
        return False
    if b is None:                                   # undefined (mean of nothing): any of nan or 0
        return a != a or a == 0
    return abs(a - b) <= tol * max(1.0, abs(b))


def mean(l):
    l = list(l)
    return sum(l) / len(l) if l else None


def flat(ll):
    return [x for l in ll for x in l]


class Model:
    def __init__(self, reac, w, evs):
        self.w, self.evs = w, evs
        self.fr = flat(evs)
        self.L, self.H = [e[0] for e in evs], [e[1] for e in evs]
        self.ages = w < 0

    def lists(self, fs, k, i):
        return [[x[i] for x in f[k]] for f in fs]

    def dirs(self, fs, k):
        return [[x[:3] for x in f[k]] for f in fs]

    def gtimes(self, fs):
        return [[x[4] if self.ages else 0.0 for x in f["g"]] for f in fs]


def getters(m):
    fr, L, H, evs = m.fr, m.L, m.H, m.evs
    c = lambda fs, k: [f[k] for f in fs]
    g = {"getNumberFragments": len(fr), "getNumberEvents": len(evs), "getTimeCoincidenceWindow": m.w,
         "getA": c(fr, "A"), "getZ": c(fr, "Z"), "getN": [f["A"] - f["Z"] for f in fr], "getU": c(fr, "U"), "getJ": c(fr, "J"), "getP": c(fr, "P"),
         "getKEpre": c(fr, "KE"), "getKEpost": c(fr, "KEp"), "getNu": c(fr, "nn"), "getNug": c(fr, "ng"),
         "getNuEvent": [a["nn"] + b["nn"] for a, b in evs], "getNuLF": c(L, "nn"), "getNuHF": c(H, "nn"), "getNutot": [a["nn"] + b["nn"] + b["npre"] for a, b in evs],
         "getPreFissionNu": c(H, "npre"), "getNugLF": c(L, "ng"), "getNugHF": c(H, "ng"), "getNugtot": [a["ng"] + b["ng"] for a, b in evs],
         "getTKEpre": [a["KE"] + b["KE"] for a, b in evs], "getTKEpost": [a["KEp"] + b["KEp"] for a, b in evs], "getTXE": [a["U"] + b["U"] for a, b in evs],
         "getNeutronElab": m.lists(fr, "lab", 3), "getNeutronEcm": m.lists(fr, "cm", 3), "getGammaElab": m.lists(fr, "g", 3), "getGammaAges": m.gtimes(fr),
         "getPreFissionNeutronElab": m.lists(H, "p", 3), "getPreFissionNeutronDircos": m.dirs(H, "p"),
         "getFragmentMomentumPre": c(fr, "pre"), "getFragmentMomentumPost": c(fr, "post"), "getLabNeutronDircos": m.dirs(fr, "lab"), "getcmNeutronDircos": m.dirs(fr, "cm")}
    for x, fs in (("LF", L), ("HF", H)):
        g.update({"getA" + x: c(fs, "A"), "getZ" + x: c(fs, "Z"), "getN" + x: [f["A"] - f["Z"] for f in fs], "getU" + x: c(fs, "U"), "getJ" + x: c(fs, "J"), "getP" + x: c(fs, "P"), "getKE" + x: c(fs, "KE")})
    return g


def hist(vals, edges):
    n = [0] * (len(edges) - 1)
    for v in vals:
        if edges[0] <= v <= edges[-1]:
            n[min(bisect.bisect_right(edges, v) - 1, len(n) - 1)] += 1
    return n


def centers(e):
    return [0.5 * (a + b) for a, b in zip(e, e[1:])]


ETHS = [None, 0.0, 0.1, 0.5, 1.0, 0.3, 99.0]
TIMES = [0.0, 1e-10, 3.1e-10, 1e-8, 5e-8, 1e-6, 1.0]


def prob(n):
    mx = max(n)
    return [list(range(mx + 1)), [n.count(i) / len(n) for i in range(mx + 1)]]


def qA(m, q, top=True):
    a = [f["A"] for f in m.fr]
    xs = list(range(min(a), max(a) + 1))
    return [xs, [mean(v for v, aa in zip(q, a) if aa == x) or 0.0 for x in xs]]


def cosz(v):
    return v[2] / math.sqrt(sum(x * x for x in v))


def derived(m):
    """name -> (call(h), expected value or judge(value))"""
    fr, L, H, evs = m.fr, m.L, m.H, m.evs
    E = len(evs)
    lab, cm, g = (lambda fs: m.lists(fs, "lab", 3)), (lambda fs: m.lists(fs, "cm", 3)), (lambda fs: m.lists(fs, "g", 3))
    pre = m.lists(H, "p", 3)
    o = {}
    o["nubar"] = (lambda h: h.nubar(), mean(f["nn"] for f in fr))
    o["nubartot"] = (lambda h: h.nubartot(), mean(a["nn"] + b["nn"] + b["npre"] for a, b in evs))
    o["preFissionNubar"] = (lambda h: h.preFissionNubar(), mean(f["npre"] for f in H))
    o["meanNeutronElab"] = (lambda h: h.meanNeutronElab(), mean(flat(lab(fr)) + flat(pre)))
    for n, fs, get in (("meanNeutronElabLF", L, lab), ("meanNeutronElabHF", H, lab), ("meanNeutronElabFragments", fr, lab), ("meanNeutronEcmFragments", fr, cm), ("meanNeutronEcmLF", L, cm),
                       ("meanNeutronEcmHF", H, cm), ("meanGammaElab", fr, g), ("meanGammaElabLF", L, g), ("meanGammaElabHF", H, g)):
        o[n] = (lambda h, n=n: getattr(h, n)(), mean(flat(get(fs))))
    o["meanPreFissionNeutronElab"] = (lambda h: h.meanPreFissionNeutronElab(), mean(flat(pre)))
    o["meanList"] = (lambda h: h.meanList(h.getNeutronEcm()), mean(flat(cm(fr))))
    allg = [(e, t) for es, ts in zip(g(fr), m.gtimes(fr)) for e, t in zip(es, ts)]
    for eth in ETHS:
        x = 0.0 if eth is None else eth
        kw = {} if eth is None else {"Eth": eth}
        s = "(Eth=%s)" % eth
        o["nubarg" + s] = (lambda h, kw=kw: h.nubarg(**kw), mean(sum(e >= x for e in es) for es in g(fr)))
        o["nubargtot" + s] = (lambda h, kw=kw: h.nubargtot(**kw), mean(sum(e >= x for e in a + b) for a, b in zip(g(L), g(H))))
        for tw, tv in ((True, list(np.logspace(-9, 0, 15))), (list(TIMES), TIMES), (np.array(TIMES), TIMES)):
            ts = "(time=%s,Eth=%s)" % ("True" if tw is True else type(tw).__name__, eth)
            tot = [sum(1 for e, t in allg if t <= ti and e >= x) for ti in tv]
            o["nubarg" + ts] = (lambda h, kw=kw, tw=tw: h.nubarg(timeWindow=tw, **kw), ("alt", [tv, [n / (2.0 * E) for n in tot]], "nubarg-time-per-event", [tv, [n / float(E) for n in tot]]))
            o["nubargtot" + ts] = (lambda h, kw=kw, tw=tw: h.nubargtot(timeWindow=tw, **kw), [tv, [n / float(E) for n in tot]])
        if eth is None:
            o["Pnu()"] = (lambda h: h.Pnu(), prob([a["nn"] + b["nn"] + b["npre"] for a, b in evs]))
            o["Pnug()"] = (lambda h: h.Pnug(), prob([a["ng"] + b["ng"] for a, b in evs]))
        else:
            o["Pnu" + s] = (lambda h, kw=kw: h.Pnu(**kw), prob([sum(e >= x for e in a + b + c) for a, b, c in zip(lab(L), lab(H), pre)]))
            o["Pnug" + s] = (lambda h, kw=kw: h.Pnug(**kw), prob([sum(e >= x for e in a + b) for a, b in zip(g(L), g(H))]))
            o["getNuEnergyCut" + s] = (lambda h, x=x: h.getNuEnergyCut(x), [sum(e > x for e in es) for es in lab(fr)])
            o["getNugEnergyCut" + s] = (lambda h, x=x: h.getNugEnergyCut(x), [sum(e > x for e in es) for es in g(fr)])
            o["nubargA" + s] = (lambda h, kw=kw: h.nubargA(**kw), qA(m, [sum(e >= x for e in es) for es in g(fr)]))
        # spectra
        eg = list(np.logspace(-3, 2, 100))
        ne = [e for e in flat(lab(fr)) + flat(pre) if e >= x]
        hn = hist(ne, eg)
        o["pfns" + s] = (lambda h, kw=kw: h.pfns(**kw), [centers(eg), [n / (b - a) / sum(hn) if sum(hn) else None for n, a, b in zip(hn, eg, eg[1:])]])
        eg2 = list(np.logspace(-1, 1, 200))
        for tw in (None, (0.0, 1e-8), (1e-8, 1e-6), (3.1e-10, 5e-8)):
            kw2 = dict(kw) if tw is None else dict(kw, minTime=tw[0], maxTime=tw[1])
            ge = [e for e, t in allg if e >= x and (tw is None or tw[0] <= t <= tw[1])]
            hg = hist(ge, eg2)
            mu = mean(a["ng"] + b["ng"] for a, b in evs)
            o["pfgs%s%s" % (s, tw)] = (lambda h, kw2=kw2: h.pfgs(**kw2), [centers(eg2), [n / (b - a) / sum(hg) * mu if sum(hg) else None for n, a, b in zip(hg, eg2, eg2[1:])]])
        # angles
        for lb in (None, True, False):
            for ip in (None, True, False):
                kw2 = dict(kw)
                if lb is not None:
                    kw2["lab"] = lb
                if ip is not None:
                    kw2["includePrefission"] = ip
                key = "lab" if lb is not False else "cm"
                pick = lambda fs, k: [v[2] for f in fs for v in f[k] if v[3] >= x]
                al = pick(L, key) + pick(H, key) + (pick(H, "p") if key == "lab" and ip is not False else [])
                o["nangles%r" % kw2] = (lambda h, kw2=kw2: h.nangles(**kw2), [al, pick(L, key), pick(H, key)])
        for ae in (None, True, False):
            for ip in (None, False):
                kw2 = dict(kw)
                if ae is not None:
                    kw2["afterEmission"] = ae
                if ip is not None:
                    kw2["includePrefission"] = ip
                mk = "pre" if ae is False else "post"

                def ang(fs, k):
                    r = []
                    for f, l in zip(fs, L):
                        n = math.sqrt(sum(y * y for y in l[mk]))
                        r += [sum(v[i] * l[mk][i] / n for i in range(3)) for v in f[k] if v[3] >= x]
                    return r
                o["nFangles%r" % kw2] = (lambda h, kw2=kw2: h.nFangles(**kw2), [ang(L, "lab") + ang(H, "lab") + (ang(H, "p") if ip is not False else []), ang(L, "lab"), ang(H, "lab")])
    o["nubarA"] = (lambda h: h.nubarA(), qA(m, [f["nn"] for f in fr]))
    o["nubargA()"] = (lambda h: h.nubargA(), qA(m, [f["ng"] for f in fr]))
    o["UA"] = (lambda h: h.UA(), qA(m, [f["U"] for f in fr]))
    tke = [a["KE"] + b["KE"] for a, b in evs]
    tke2 = [t for t in tke for _ in (0, 1)]
    o["TKEA"] = (lambda h: h.TKEA(), qA(m, tke2))
    o["spinA"] = (lambda h: h.spinA(), qA(m, [f["J"] for f in fr]))

    def bytke(q, t):
        def judge(v):
            xs, ys = v
            if len(xs) != len(ys) or not xs or abs(xs[0] - min(tke)) > 1e-6 or any(abs(b - a - 1) > 1e-6 for a, b in zip(xs, xs[1:])) or not (xs[-1] < max(tke) + 1 + 1e-6 and max(tke) < xs[-1] + 1 + 1e-6):
                return "bins %r do not cover the TKE range %r..%r" % (xs[:3], min(tke), max(tke))
            exact = all(8 * tt == int(8 * tt) for tt in tke)
            for x, y in zip(xs, ys):
                if not exact and any(abs(tt - x) < 1e-6 and tt != min(tke) or abs(tt - x - 1) < 1e-6 for tt in t):
                    continue                        # on a bin edge, up to rounding
                w = mean(a for a, tt in zip(q, t) if x - 1e-7 <= tt < x + 1 - 1e-7) or 0.0
                if not same(y, w):
                    return "bin [%g,%g): %r instead of %r" % (x, x + 1, y, w)
        return ("judge", judge)
    o["nubarTKE"] = (lambda h: h.nubarTKE(), bytke([a["nn"] + b["nn"] for a, b in evs], tke))
    o["nubargTKE"] = (lambda h: h.nubargTKE(), bytke([a["ng"] + b["ng"] for a, b in evs], tke))
    o["UTKE"] = (lambda h: h.UTKE(), bytke([f["U"] for f in fr], tke2))
    o["spinTKE"] = (lambda h: h.spinTKE(), bytke([f["J"] for f in fr], tke2))
    for ae in (None, True, False):
        kw = {} if ae is None else {"afterEmission": ae}
        o["FFangles%r" % kw] = (lambda h, kw=kw: h.FFangles(**kw), [cosz(f["pre" if ae is False else "post"]) for f in fr])
    for kw, key in (({}, "lab"), ({"lab": True}, "lab"), ({"cm": True}, "cm")):
        pr = lambda fs: [[sum(a[i] * b[i] for i in range(3)) for a, b in itertools.combinations(f[key], 2)] for f in fs]
        o["nnangles%r" % kw] = (lambda h, kw=kw: h.nnangles(**kw), [flat(pr(L)), flat(pr(H)), flat(pr(fr))])
    for eg, de in ((0.5, 0.01), (0.871, 0.2), ([0.5, 0.1], [0.001, 0.05]), (np.array([0.143, 0.871]), np.array([0.01, 0.01])), (1.0, 0.0)):
        for post in (True, False):
            egl, del_ = (list(np.atleast_1d(eg)), list(np.atleast_1d(de)))
            want = [[f["Z"], f["A"] - (f["nn"] if post else 0)] for f in fr if all(any(v[3] <= a + d and v[3] >= a - d for v in f["g"]) for a, d in zip(egl, del_))]
            o["gammaSpec(%r,%r,%r)" % (egl, del_, post)] = (lambda h, eg=eg, de=de, post=post: h.gammaSpec(eg, de, post=post), want)
    for tw in (None, (1e-9, 1e-6), (1e-8, 1.0)):
        lo, hi, n = (1e-8, 100, 501) if tw is None else (tw[0], tw[1], int(50 * abs(math.log10(tw[1]) - math.log10(tw[0])) + 1))
        edges = list(np.linspace(lo, hi, n))
        for az in [None] + [(f["A"] - f["nn"], f["Z"]) for f in fr[:2]]:
            for eth in (None, 0.5):
                kw = {} if tw is None else {"minTime": tw[0], "maxTime": tw[1]}
                if az:
                    kw.update(Afragment=az[0], Zfragment=az[1])
                if eth is not None:
                    kw["Eth"] = eth
                ages = [t for f, ts in zip(fr, m.gtimes(fr)) for v, t in zip(f["g"], ts) if (az is None or (f["A"] - f["nn"], f["Z"]) == az) and v[3] >= (eth or 0.0)]
                o["gammaMultiplicity%r" % kw] = (lambda h, kw=kw: h.gammaMultiplicity(**kw), [centers(edges), hist(ages, edges)])
    for f in fr[:2]:
        a, z = f["A"] - f["nn"], f["Z"]
        sel = [ts for ff, ts in zip(fr, m.gtimes(fr)) if (ff["A"] - ff["nn"], ff["Z"]) == (a, z)]
        for th in (1e-9, 1e-8, 1.0):
            r = sum(any(t >= th for t in ts) for ts in sel) / float(len(sel))
            for jm, jg in ((5.5, 1.5), (0.5, 4.5)):
                o["isomericRatio(%g,%d,%d,%g)" % (th, a, z, jm)] = (lambda h, a=a, z=z, th=th, jm=jm, jg=jg: h.isomericRatio(th, a, z, jm, jg), r if jm > jg else 1 - r)
    F = lambda f, x: f.format(float("nan") if x is None else x)
    f2, f3 = "{0:5.2f}", "{0:.3f}"
    tab = {"A": [F(f2, mean(f["A"] for f in s)) for s in (fr, L, H)], "Z": [F(f2, mean(f["Z"] for f in s)) for s in (fr, L, H)],
           "TXE / U (MeV)": [F(f2, mean(a["U"] + b["U"] for a, b in evs)), F(f2, mean(f["U"] for f in L)), F(f2, mean(f["U"] for f in H))],
           "TKE / KE (MeV)": [F(f2, mean(tke)), F(f2, mean(f["KE"] for f in L)), F(f2, mean(f["KE"] for f in H))],
           "parity": [F(f2, mean(f["P"] for f in s)) for s in (fr, L, H)],
           r"$\langle \nu\rangle$": [F(f3, mean(a["nn"] + b["nn"] for a, b in evs)), F(f3, mean(f["nn"] for f in L)), F(f3, mean(f["nn"] for f in H)), F(f3, mean(f["npre"] for f in H)), F(f3, mean(a["nn"] + b["nn"] + b["npre"] for a, b in evs))],
           r"$\langle \epsilon_n^{cm}\rangle$ (MeV)": [F(f3, mean(flat(cm(s)))) for s in (fr, L, H)],
           r"$\langle E_n^{lab}\rangle$ (MeV)": [F(f3, mean(flat(lab(s)))) for s in (fr, L, H)] + [F(f3, mean(flat(pre)) or 0.0), F(f3, mean(flat(lab(fr)) + flat(pre)))],
           r"$\langle \nu_\gamma\rangle$": [F(f2, mean(a["ng"] + b["ng"] for a, b in evs)), F(f2, mean(f["ng"] for f in L)), F(f2, mean(f["ng"] for f in H))],
           r"$\langle E_\gamma^{lab}\rangle$ (MeV)": [F(f2, mean(flat(g(s)))) for s in (fr, L, H)]}

    def num(s):
        try:
            return float(s)
        except (TypeError, ValueError):
            return s

    def table(v):
        rows = {r[0]: r[1:] for r in v}
        for k, want in tab.items():
            got = rows.get(k)
            if got is None:
                return "no row %r" % k
            for a, b in zip(got, want):
                a, b = num(a), num(b)
                if not (a == b or (a != a and b != b) or (b != b and a == 0) or (isinstance(a, float) and abs(a - b) <= 0.0101 and abs(a - b) * (100 if k[0] != "$" else 100) < 1.5)):
                    return "row %r: %r instead of %r" % (k, got, want)
            if len(got) != len(want):
                return "row %r has %d columns" % (k, len(got))
    o["summaryTable"] = (lambda h: h.summaryTable(), ("judge", table))
    return o


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def check_file(prop, path, m, tag):
    """returns (number of comparisons, [(key, message)])"""
    from CGMFtk import histories as fh
    bad, n = [], 0
    try:
        h = quiet(lambda: fh.Histories(path))
    except (Exception, SystemExit) as ex:
        return 1, [("read", "%s: reading fails: %r" % (tag, ex))] if prop == "C11" else []
    if prop == "C11":
        for name, want in getters(m).items():
            n += 1
            try:
                got = plain(getattr(h, name)())
            except Exception as ex:
                bad.append((name, "%s: %s() fails: %r" % (tag, name, ex)))
                continue
            if not same(got, want):
                bad.append((name, "%s: %s() returns %.300r, the file says %.300r" % (tag, name, got, want)))
        # limited reads
        for k in sorted(set([1, 2, len(m.evs) - 1, len(m.evs), len(m.evs) + 1])):
            if k < 1:
                continue
            n += 1
            sub = Model(None, m.w, m.evs[:k])
            try:
                hk = quiet(lambda: fh.Histories(path, nevents=k))
                for name, want in getters(sub).items():
                    if not same(plain(getattr(hk, name)()), want):
                        bad.append(("limit", "%s: nevents=%d: %s() is not that of the first %d events" % (tag, k, name, k)))
                        break
            except (Exception, SystemExit) as ex:
                bad.append(("limit", "%s: nevents=%d: %r" % (tag, k, ex)))
    else:
        snapshot = {k: getattr(h, k)() for k in ("getNeutronElab", "getGammaElab", "getGammaAges", "getPreFissionNeutronElab", "getNu")}
        before = {k: plain(v) for k, v in snapshot.items()}
        for name, (call, want) in derived(m).items():
            n += 1
            try:
                got = plain(quiet(lambda: call(h)))
            except (Exception, SystemExit) as ex:
                bad.append((name.split("(")[0].split("{")[0], "%s: %s fails: %r" % (tag, name, ex)))
                continue
            key = name.split("(")[0].split("{")[0]
            if isinstance(want, tuple) and want and want[0] == "judge":
                try:
                    msg = want[1](got)
                except Exception as ex:
                    msg = "cannot be judged: %r (%.200r)" % (ex, got)
                if msg:
                    bad.append((key, "%s: %s: %s" % (tag, name, msg)))
            elif isinstance(want, tuple) and want and want[0] == "alt":
                if not same(got, want[1]):
                    bad.append((want[2] if same(got, want[3]) else key, "%s: %s returns %.300r, definition gives %.300r" % (tag, name, got, want[1])))
            elif not same(got, want):
                bad.append((key, "%s: %s returns %.300r, definition gives %.300r" % (tag, name, got, want)))
        # asking does not change what was read
        for k, v in before.items():
            if plain(getattr(h, k)()) != v:
                bad.append(("mutated", "%s: %s changed while observables were computed" % (tag, k)))
    return n, bad


def job(arg):
    prop, kind, spec = arg
    d = tempfile.mkdtemp(prefix="tk", dir=SCR)
    path = os.path.join(d, "h.cgmf")
    if kind == "gen":
        fam, w, shapes = spec
        reac, evs = make(fam, shapes)
        open(path, "w").write(text(reac, w, evs))
        m = Model(reac, w, evs)
        # the model must be what the file says: re-read it with the independent parser
        hd, e2, ages = cli.parse_history(open(path).read())
        for a, b in zip(flat(evs), flat(e2)):
            assert all(same(b[k], a[k] if k != "g" or w < 0 else [x[:4] for x in a["g"]]) for k in b), (a, b)
        tag = "file(family %d, window %g, shapes %r)" % (fam, w, shapes)
    else:
        src, lim = spec
        t = open(src).read()
        hd, evs, ages = cli.parse_history(t)
        w = float(hd[2])
        m = Model(None, w, evs)
        path = src
        tag = os.path.relpath(src, core.REPO)
    n, bad = check_file(prop, path, m, tag)
    if kind == "gen":
        os.unlink(path)
    os.rmdir(d)
    return arg, n, bad


def space(quick):
    two = list(itertools.product(range(3), range(3)))
    W = (-1.0, 1e-8)
    for fam in (0, 1, 2):
        for a in two:
            for b in two:
                for p in range(3):
                    for w in W:
                        yield (fam, w, ((a, b, p),))
    red = [(0, 0), (1, 0), (0, 1), (2, 1)] if quick else [(0, 0), (1, 0), (0, 1), (2, 1), (1, 2), (2, 2)]
    evs = [(a, b, p) for a in red for b in red for p in (0, 1)]
    k = 0
    for x in evs:
        for y in evs:
            k += 1
            for fam in ([k % 3] if quick else (0, 1, 2)):
                yield (fam, W[(k // 3) % 2], (x, y))
                if not quick:
                    yield (fam, W[(k // 3 + 1) % 2], (x, y))
    red3 = [((0, 0), (0, 0), 0), ((1, 2), (2, 0), 1), ((0, 1), (1, 1), 0), ((3, 1), (0, 4), 2)] + ([] if quick else [((1, 1), (1, 1), 0), ((0, 2), (2, 2), 1), ((2, 2), (0, 0), 0)])
    for t in itertools.product(red3, repeat=3):
        k += 1
        yield (k % 3, W[k % 2], t)
    # realistic and extreme multiplicities: longer files whose events sweep the multiplicities
    for fam in (0, 1, 2):
        for w in W:
            for n in ((7, 40) if quick else (7, 40, 150)):
                for q in range(2 if quick else 6):
                    yield (fam, w, tuple(
                        (((i * 3 + q) % 7, (i * 5 + q) % 19), ((i * 4 + 2 * q) % 9, (i * 7 + 3 * q) % 23), (i + q) % 4 if q % 2 else 0) for i in range(n)))
    if not quick:
        for t in itertools.product(red3[:5], repeat=4):
            k += 1
            yield (k % 3, W[k % 2], t)


def main():
    global SCR
    c = core.Check(PROP, "model_checking")
    SCR = core.scratch()
    jobs = [(PROP, "gen", s) for s in space(c.quick)]
    ngen = len(jobs)
    refs = sorted(glob.glob(os.path.join(core.REPO, "utils/cgmf/tests/*-events/histories.cgmf.parallel.0.reference")))
    jobs = [(PROP, "ref", (r, None)) for r in refs] + jobs
    st = collections.Counter()
    if PROP == "C11":
        # a history without events
        from CGMFtk import histories as fh
        p = os.path.join(SCR, "empty.cgmf")
        open(p, "w").write("# 98252 0 1e-08\n")
        try:
            h = quiet(lambda: fh.Histories(p))
            for name, want in getters(Model(None, 1e-8, [])).items():
                if not same(plain(getattr(h, name)()), want):
                    c.violation("empty", "history without events: %s() = %r" % (name, getattr(h, name)()))
        except (Exception, SystemExit) as ex:
            c.violation("empty", "a history file without events cannot be read: %r" % ex)
    with ProcessPoolExecutor(core.NPROC) as pool:
        for arg, n, bad in pool.map(job, jobs, chunksize=16):
            st["files"] += 1
            st["compared"] += n
            for k, msg in bad:
                c.violation(k, msg, {"kind": arg[1], "spec": repr(arg[2])})
    c.sample({"file": text(*(lambda r, e: (r, -1.0, e))(*make(0, (((1, 2), (0, 1), 1),))))})
    c.cov = {"states": st["files"], "transitions": st["compared"], "traces_validated_against_impl": st["files"], "generated_files": ngen, "reference_files": len(refs), "exhaustive": True,
             "bound": "all 1-event files with 0-2 neutrons/photons per fragment and 0-2 pre-fission neutrons x 3 value families x 2 windows; all 2-event files over %d event shapes; 3-event files; files of 7 and 40 events with up to 8 neutrons, 22 photons per fragment and 3 pre-fission neutrons" % (32 if c.quick else 72)}
    c.assumptions = ["value families are fixed; numbers outside them are not covered"]
    if not refs:
        c.assumptions.append("no shipped reference histories found")
    c.finish()


SCR = None
if __name__ == "__main__":
    main()
