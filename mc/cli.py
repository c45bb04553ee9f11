"""Runs the real cgmf driver (built from the tree, serial or with the stand-in MPI) and parses what it writes."""
import os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, core

DRIVER = os.path.join(core.REPO, "utils/cgmf/cgmf.cpp")


def driver(mpi=False, variant="opt"):
    if mpi:
        return build.program("cgmfmpi", [DRIVER], variant, defines=["-DMPIRUN", "-I" + os.path.join(core.VERIF, "src/fakempi")])
    return build.program("cgmf", [DRIVER], variant)


def standin(mpi=False):
    """the real driver compiled against a stand-in of the event generator (src/fakelib)"""
    d = ["-I" + os.path.join(core.VERIF, "src/fakelib")]
    if mpi:
        d += ["-DMPIRUN", "-I" + os.path.join(core.VERIF, "src/fakempi")]
    return build.program("cgmffake" + ("mpi" if mpi else ""), [DRIVER], "opt", defines=d, objs=[])


def run(exe, args, leveltext=None, data=core.DATA, env=None, timeout=300, keep=False):
    """One process in a scratch directory of its own; returns (rc, stdout, stderr, {file: text}). rc None: timed out"""
    d = tempfile.mkdtemp(dir=core.scratch())
    e = {k: v for k, v in os.environ.items() if k != "CGMFDATA"}
    e.update(core.ASAN_ENV)
    e.setdefault("MALLOC_TRIM_THRESHOLD_", "4000000000")     # speed only
    e.setdefault("MALLOC_MMAP_MAX_", "0")
    if data is not None:
        e["CGMFDATA"] = data
    e.update(env or {})
    if leveltext is not None:
        os.symlink(os.path.join(core.leveldir(leveltext), "discreteLevels.dat"), os.path.join(d, "discreteLevels.dat"))
    try:
        p = subprocess.run([exe] + [str(a) for a in args], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout)
        rc, so, se = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as ex:
        rc, so, se = None, ex.stdout or b"", ex.stderr or b""
    files = {}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isfile(p) and not os.path.islink(p):
            files[f] = open(p, errors="replace").read()
    if not keep:
        subprocess.run(["rm", "-rf", d])
    return rc, so.decode(errors="replace"), se.decode(errors="replace"), files


def mpirun(exe, np, args, leveltext, timeout=300, env=None):
    """np concurrent ranks; returns [(rc, stdout, stderr, files)] by rank"""
    x = tempfile.mkdtemp(dir=core.scratch())
    if leveltext is not None:
        core.leveldir(leveltext)
    with ThreadPoolExecutor(np) as ex:
        rs = list(ex.map(lambda r: run(exe, args, leveltext, env=dict(env or {}, FAKEMPI_RANK=str(r), FAKEMPI_SIZE=str(np), FAKEMPI_DIR=x), timeout=timeout), range(np)))
    subprocess.run(["rm", "-rf", x])
    return rs


class Malformed(Exception):
    pass


def parse_history(text, header=True):
    """Independent parser of the documented history format; returns (header tokens, [event])."""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    pos = 0
    hd = None
    if header:
        if not lines or not lines[0].startswith("#"):
            raise Malformed("no header line")
        hd = lines[0][1:].split()
        pos = 1
    elif lines and lines[0].startswith("#"):
        raise Malformed("unexpected header line")
    ages = None
    events = []

    def nums(l, n, what):
        t = l.split()
        if len(t) != n:
            raise Malformed("%s: %d numbers instead of %d: %r" % (what, len(t), n, l[:120]))
        return [float(x) for x in t]

    def take():
        nonlocal pos
        if pos >= len(lines):
            raise Malformed("file ends inside an event")
        pos += 1
        return lines[pos - 1]
    while pos < len(lines):
        ev = []
        for f in (0, 1):
            h = nums(take(), 10, "fragment line")
            p = nums(take(), 6, "momentum line")
            nn, ng, npre = int(h[7]), int(h[8]), int(h[9])
            fr = {"A": int(h[0]), "Z": int(h[1]), "U": h[2], "J": h[3], "P": int(h[4]), "KE": h[5], "KEp": h[6], "nn": nn, "ng": ng, "npre": npre,
                  "pre": p[:3], "post": p[3:], "cm": [], "lab": [], "g": [], "p": []}
            if nn:
                for key in ("cm", "lab"):
                    t = nums(take(), 4 * nn, "neutron line")
                    fr[key] = [t[4 * i:4 * i + 4] for i in range(nn)]
            if ng:
                l = take()
                k = len(l.split())
                w = 5 if k == 5 * ng else 4
                t = nums(l, w * ng, "photon line")
                fr["g"] = [t[w * i:w * i + w] for i in range(ng)]
                if ages is None:
                    ages = w == 5
                if ages != (w == 5):
                    raise Malformed("photon ages in some lines only")
            if f == 0 and npre:
                raise Malformed("pre-fission neutrons listed with the light fragment")
            if f == 1 and npre:
                t = nums(take(), 4 * npre, "pre-fission line")
                fr["p"] = [t[4 * i:4 * i + 4] for i in range(npre)]
            ev.append(fr)
        events.append(ev)
    return hd, events, ages


SUMMARY = [
    ("light (Z,A)", r"Average Light Fragment \(Z,A\) = \(%N,%N\)", ["ZL", "AL"]),
    ("heavy (Z,A)", r"Average Heavy Fragment \(Z,A\) = \(%N,%N\)", ["ZH", "AH"]),
    ("kinetic", r"Average Kinetic Energies: LF = %N MeV ; HF = %N MeV ; <TKE> = %N MeV", ["KEL", "KEH", "TKE"]),
    ("excitation", r"Average Excitation Energies: LF = %N MeV ; HF = %N MeV ; <TXE> = %N MeV", ["UL", "UH", "TXE"]),
    ("spin", r"<J>_LF = %N hbar ; <J>_HF = %N hbar ; <J> = %N hbar", ["JL", "JH", "J"]),
    ("nu", r"<nu>_LF = %N ; <nu>_HF = %N ; <nu>_prefission = %N ; <nu>_tot = %N", ["nuL", "nuH", "nuP", "nuT"]),
    ("Ecm", r"<Ecm>_LF = %N MeV ; <Ecm>_HF = %N MeV ; <Ecm>_prefission = %N MeV ; <Ecm>_tot = %N", ["EcL", "EcH", "EP", "EcT"]),
    ("Elab", r"<Elab>_LF = %N MeV ; <Elab>_HF = %N MeV ; <Elab>_prefission = %N MeV ; <Elab>_tot = %N", ["ElL", "ElH", "EP", "ElT"]),
    ("nug", r"<nu_g>_LF = %N ; <nu_g>_HF = %N ; <nu_g>_tot = %N", ["ngL", "ngH", "ngT"]),
    ("Eg", r"<Eg>_LF = %N MeV ; <Eg>_HF = %N MeV ; <Eg>_tot = %N", ["EgL", "EgH", "EgT"]),
]


def averages(rs):
    """reference model of the summary: from the events (evh results)"""
    n = len(rs)
    S = lambda f: sum(f(r) for r in rs)
    d = {}
    for i, x in ((0, "L"), (1, "H")):
        d["Z" + x], d["A" + x] = S(lambda r: r["Z"][i]) / n, S(lambda r: r["A"][i]) / n
        d["KE" + x], d["U" + x], d["J" + x] = S(lambda r: r["KE"][i]) / n, S(lambda r: r["U"][i]) / n, S(lambda r: r["J"][i]) / n
        d["nu" + x], d["ng" + x] = S(lambda r: r["nuf"][i]) / n, S(lambda r: r["nugf"][i]) / n
        sl = (lambda r, k: r[k][:r["nuf"][0]]) if i == 0 else (lambda r, k: r[k][r["nuf"][0]:])
        gl = (lambda r: r["gE"][:r["nugf"][0]]) if i == 0 else (lambda r: r["gE"][r["nugf"][0]:])
        d["Ec" + x] = S(lambda r: sum(sl(r, "cE"))) / max(1, S(lambda r: r["nuf"][i]))
        d["El" + x] = S(lambda r: sum(sl(r, "nE"))) / max(1, S(lambda r: r["nuf"][i]))
        d["Eg" + x] = S(lambda r: sum(gl(r))) / max(1, S(lambda r: r["nugf"][i]))
    d["TKE"], d["TXE"], d["J"] = d["KEL"] + d["KEH"], d["UL"] + d["UH"], (d["JL"] + d["JH"]) / 2
    npre, nt = S(lambda r: r["npre"]), S(lambda r: r["nu"] + r["npre"])
    d["nuP"], d["nuT"] = npre / n, nt / n
    ep = S(lambda r: sum(r["pE"]))
    d["EP"] = ep / max(1, npre)
    d["EcT"], d["ElT"] = (S(lambda r: sum(r["cE"])) + ep) / max(1, nt), (S(lambda r: sum(r["nE"])) + ep) / max(1, nt)
    d["ngT"], d["EgT"] = S(lambda r: r["nug"]) / n, S(lambda r: sum(r["gE"])) / max(1, S(lambda r: r["nug"]))
    return d


def check_summary(out, rs, zaid, e):
    """list of (key, message) where the printed summary differs from the averages of the events rs"""
    bad = []
    want = averages(rs)
    for name, pat, keys in SUMMARY:
        m = re.search(pat.replace("%N", r"\s*([-+0-9.a-z]+)"), out)
        if not m:
            bad.append(("summary-line", "no summary line for %s" % name))
            continue
        for k, t in zip(keys, m.groups()):
            try:
                v = float(t)
            except ValueError:
                v = float("nan")
            if not abs(v - want[k]) <= 0.00501 + 1e-9 * abs(want[k]):
                bad.append(("summary-" + k, "%s: printed %s, the events give %.6f" % (name, t, want[k])))
    z, a = zaid // 1000, zaid % 1000
    m = re.search(r"Reaction:(.*)", out)
    if not m:
        bad.append(("summary-reaction", "no reaction line"))
    else:
        t = re.sub(r"\s", "", m.group(1))
        if ("(%d,%d)" % (z, a)) not in t or (("spontaneous" in t) != (e == 0.0)):
            bad.append(("summary-reaction", "%r for %d at %g" % (m.group(1), zaid, e)))
        mm = re.search(r"En=([-+0-9.e]+)MeV", t)
        if e and (not mm or abs(float(mm.group(1)) - e) > 0.006 * e):
            bad.append(("summary-energy", "%r for %g MeV" % (m.group(1), e)))
    return bad


def compare_history(text, rs, zaid, e, w, header=True):
    """list of (key, message) where the history file differs from the generated events rs"""
    try:
        hd, evs, ages = parse_history(text, header)
    except (Malformed, ValueError) as ex:
        return [("malformed", str(ex))]
    bad = []
    if header:
        try:
            ok = len(hd) == 3 and int(hd[0]) == zaid and abs(float(hd[1]) - e) <= 1e-5 * e and abs(float(hd[2]) - w) <= 1e-5 * abs(w)
        except ValueError:
            ok = False
        if not ok:
            bad.append(("header", "header %r for %d %g MeV window %g" % (hd, zaid, e, w)))
    if len(evs) != len(rs):
        bad.append(("count", "%d events in the file, %d generated" % (len(evs), len(rs))))
    if ages is not None and ages != (w < 0):
        bad.append(("ages", "photon ages %s with window %g" % ("written" if ages else "not written", w)))
    for k, (ev, r) in enumerate(zip(evs, rs)):
        def cmp(what, got, want, tol=5.01e-4):
            for g, x in zip(got, want):
                if not abs(g - x) <= tol + 1e-12 * abs(x):
                    bad.append((what, "event %d: %s is %r in the file, %.6f generated" % (k, what, g, x)))
                    return
        if not ok_counts(ev, r):
            bad.append(("multiplicity", "event %d: multiplicities in the file %s, generated %s %s %d" % (k, [(f["nn"], f["ng"], f["npre"]) for f in ev], r["nuf"], r["nugf"], r["npre"])))
            continue
        for i in (0, 1):
            f = ev[i]
            if (f["A"], f["Z"], f["P"]) != (r["A"][i], r["Z"][i], r["par"][i]):
                bad.append(("nuclide", "event %d fragment %d: A,Z,parity %r, generated %r" % (k, i, (f["A"], f["Z"], f["P"]), (r["A"][i], r["Z"][i], r["par"][i]))))
            cmp("U", [f["U"]], [r["U"][i]])
            cmp("J", [f["J"]], [r["J"][i]])
            cmp("KE", [f["KE"]], [r["KE"][i]])
            cmp("KEpost", [f["KEp"]], [r["KEp"][i]])
            cmp("pre-momentum", f["pre"], r["pre"][i])
            cmp("post-momentum", f["post"], r["post"][i])
            a, b = (0, r["nuf"][0]) if i == 0 else (r["nuf"][0], r["nu"])
            for j in range(a, b):
                cmp("cm-neutron", f["cm"][j - a], [r["cu"][j], r["cv"][j], r["cw"][j], r["cE"][j]])
                cmp("lab-neutron", f["lab"][j - a], [r["nu_"][j], r["nv"][j], r["nw"][j], r["nE"][j]])
            a, b = (0, r["nugf"][0]) if i == 0 else (r["nugf"][0], r["nug"])
            for j in range(a, b):
                cmp("photon", f["g"][j - a][:4], [r["gu"][j], r["gv"][j], r["gw"][j], r["gE"][j]])
                if len(f["g"][j - a]) == 5 and not abs(f["g"][j - a][4] - r["gage"][j]) <= 1.01e-5 * abs(r["gage"][j]):
                    bad.append(("age", "event %d photon %d: age %r in the file, %r generated" % (k, j, f["g"][j - a][4], r["gage"][j])))
        for j in range(r["npre"]):
            cmp("pre-fission neutron", ev[1]["p"][j], [r["pu"][j], r["pv"][j], r["pw"][j], r["pE"][j]])
    return bad


def ok_counts(ev, r):
    return [f["nn"] for f in ev] == list(r["nuf"]) and [f["ng"] for f in ev] == list(r["nugf"]) and ev[1]["npre"] == r["npre"]
