"""Independent oracles over one reported event (no CGMF code): conservation laws and well-formedness.

Masses come from the shipped mass table; nothing else of the tree is used.
"""
import math, os
import core

AMU = 931.494013
MN = 1.00866491578 * AMU
MXN = 8.071431          # neutron mass excess used for separation energies in the decay
_masses = None


def masses():
    global _masses
    if _masses is None:
        m = {}
        for l in open(os.path.join(core.DATA, "masses.dat")):
            if l.startswith("#"):
                continue
            l = l.rstrip("\r\n")
            while l.strip():
                m[int(l[:7])] = float(l[7:18])
                l = l[18:]
        _masses = m
    return _masses


def mx(z, a):
    return masses()[1000 * z + a]


def mass(z, a):
    return a * AMU + mx(z, a)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def norm(a):
    return math.sqrt(dot(a, a))


def isnum(x):
    return isinstance(x, (int, float)) and math.isfinite(x)


NUMKEYS = ["KE", "KEp", "U", "J", "nE", "nu_", "nv", "nw", "nage", "cE", "cu", "cv", "cw", "gE", "gu", "gv", "gw", "gage", "pE", "pu", "pv", "pw"]


def allfinite(r):
    for k in NUMKEYS:
        if not all(isnum(x) for x in r[k]):
            return k
    for k in ("pre", "post", "fd"):
        if not all(isnum(x) for v in r[k] for x in v):
            return k
    return None


def nucleons(job, r):
    """baryon number and charge"""
    _, _, zaid, e, _, _, _ = job
    zc, ac = core.compound(zaid, e)
    out = []
    if sum(r["A"]) + r["npre"] != ac:
        out.append(("mass-number", "A_L+A_H+nu_pre = %d+%d+%d, compound has A=%d" % (r["A"][0], r["A"][1], r["npre"], ac)))
    if sum(r["Z"]) != zc:
        out.append(("charge", "Z_L+Z_H = %d+%d, compound has Z=%d" % (r["Z"][0], r["Z"][1], zc)))
    for i in (0, 1):
        n = r["A"][i] - r["Z"][i]
        if not (0 < r["Z"][i] < r["A"][i]):
            out.append(("nuclide", "fragment %d is Z=%d A=%d" % (i, r["Z"][i], r["A"][i])))
        elif 1000 * r["Z"][i] + r["A"][i] - r["nuf"][i] not in masses():
            out.append(("residue", "fragment %d Z=%d A=%d emits %d neutrons: unknown residue" % (i, r["Z"][i], r["A"][i], r["nuf"][i])))
    if r["A"][0] > r["A"][1]:
        out.append(("light-heavy", "light fragment A=%d heavier than heavy A=%d" % tuple(r["A"])))
    if r["nuf"][0] + r["nuf"][1] != r["nu"] or r["nugf"][0] + r["nugf"][1] != r["nug"]:
        out.append(("multiplicity", "totals %d n %d g != per-fragment %s %s" % (r["nu"], r["nug"], r["nuf"], r["nugf"])))
    if r["npre"] < 0 or (e == 0.0 and r["npre"] != 0):
        out.append(("prefission", "nu_pre=%d for E=%g" % (r["npre"], e)))
    if r["zaid"] != zaid or r["einc"] != e:
        out.append(("reaction", "event reports target %r at %r MeV, asked for %r at %r" % (r["zaid"], r["einc"], zaid, e)))
    return out


def vec(r, n, i):
    return [r[n + "u" if n != "n" else "nu_"][i], r[n + "v"][i], r[n + "w"][i]]


def momentum(job, r):
    e = job[3]
    out = []
    # scission: incident neutron = pre-fission neutrons + both fragments
    tot = [0.0, 0.0, 0.0]
    for i in range(r["npre"]):
        p = math.sqrt(max(0.0, 2 * MN * r["pE"][i]))
        d = vec(r, "p", i)
        tot = [t + p * x for t, x in zip(tot, d)]
    for f in (0, 1):
        tot = [t + x for t, x in zip(tot, r["pre"][f])]
    want = [0.0, 0.0, math.sqrt(2 * MN * e)]
    dp = norm([a - b for a, b in zip(tot, want)])
    if not dp < 1e-3:
        out.append(("scission", "total momentum %s MeV/c, incident %s" % ([round(x, 5) for x in tot], [round(x, 5) for x in want])))
    # each fragment: before = after + its neutrons (in the laboratory)
    k = 0
    for f in (0, 1):
        q = list(r["post"][f])
        for i in range(k, k + r["nuf"][f]):
            p = math.sqrt(max(0.0, 2 * MN * r["nE"][i]))
            q = [a + p * x for a, x in zip(q, vec(r, "n", i))]
        k += r["nuf"][f]
        dp = norm([a - b for a, b in zip(q, r["pre"][f])])
        if not dp < 1e-3:
            out.append(("evaporation", "%s fragment: p_post + sum p_n = %s, p_pre = %s" % (("light", "heavy")[f], [round(x, 5) for x in q], [round(x, 5) for x in r["pre"][f]])))
    return out


def frames(job, r):
    """each lab neutron is the boost of its c.m. neutron by the velocity of the emitter at that moment; recorded energies
    match velocities; fragment kinetic energies match momenta"""
    out = []
    k = 0
    for f in (0, 1):
        a, z = r["A"][f], r["Z"][f]
        p = list(r["pre"][f])
        ke = dot(p, p) / (2 * mass(z, a))
        for i in range(k, k + r["nuf"][f]):
            m = mass(z, a)
            vc = math.sqrt(max(0.0, 2 * r["cE"][i] / MN))
            vl = [vc * c + x / m for c, x in zip(vec(r, "c", i), p)]
            el = 0.5 * MN * dot(vl, vl)
            if not abs(el - r["nE"][i]) < 1e-7 * max(1.0, el):
                out.append(("boost-energy", "neutron %d of the %s fragment: lab energy %.9g, boost of its c.m. neutron gives %.9g" % (i, ("light", "heavy")[f], r["nE"][i], el)))
            elif el > 0 and norm([v / norm(vl) - d for v, d in zip(vl, vec(r, "n", i))]) > 1e-6:
                out.append(("boost-direction", "neutron %d of the %s fragment: lab direction %s, boost gives %s" % (i, ("light", "heavy")[f], vec(r, "n", i), [v / norm(vl) for v in vl])))
            p = [x - MN * v for x, v in zip(p, vl)]
            a -= 1
        k += r["nuf"][f]
        if not norm([x - y for x, y in zip(p, r["post"][f])]) < 1e-3:
            out.append(("recoil", "%s fragment: recoil momentum %s, sequential emission gives %s" % (("light", "heavy")[f], r["post"][f], p)))
    return out


def scission_energy(job, r):
    """TKE + TXE = energy available in the fissioning nucleus"""
    _, _, zaid, e, _, _, _ = job
    zc, ac = core.compound(zaid, e)
    out = []
    # excitation of the initial compound system
    if e == 0.0:
        estar = 0.0
    else:
        estar = e + mx(zc, ac - 1) + mx(0, 1) - mx(zc, ac)
    # pre-fission neutrons: c.m. energies recovered from the lab velocities
    p = [0.0, 0.0, math.sqrt(2 * MN * e)]
    a = ac
    for i in range(r["npre"]):
        vl = [math.sqrt(2 * r["pE"][i] / MN) * x for x in vec(r, "p", i)]
        vc = [x - y / mass(zc, a) for x, y in zip(vl, p)]
        estar -= 0.5 * MN * dot(vc, vc) + mx(zc, a - 1) + mx(0, 1) - mx(zc, a)
        p = [x - MN * v for x, v in zip(p, vl)]
        a -= 1
    q = mx(zc, a) - mx(r["Z"][0], r["A"][0]) - mx(r["Z"][1], r["A"][1])
    have = sum(r["KE"]) + sum(r["U"])
    tol = 1e-4 + 0.08 * r["npre"]
    r["_dE"] = have - q - estar
    if not abs(have - q - estar) < tol:
        out.append(("scission-energy", "TKE+TXE = %.6f MeV, Q + excitation = %.6f MeV (%d pre-fission neutrons)" % (have, q + estar, r["npre"])))
    for i in (0, 1):
        if not (r["U"][i] > 0 and r["KE"][i] > 0):
            out.append(("positive", "fragment %d: U=%r KE=%r" % (i, r["U"][i], r["KE"][i])))
    ml, mh = mass(r["Z"][0], r["A"][0]), mass(r["Z"][1], r["A"][1])
    if not abs(r["KE"][0] * ml - r["KE"][1] * mh) < 1e-9 * r["KE"][0] * ml:
        out.append(("ke-sharing", "KE_L*M_L != KE_H*M_H: %r %r" % (r["KE"][0], r["KE"][1])))
    t = dot(r["pre"][0], r["pre"][0]) / (2 * ml) + dot(r["pre"][1], r["pre"][1]) / (2 * mh)
    if not abs(t - sum(r["KE"])) < (0.015 if r["npre"] == 0 else 0.06):
        out.append(("ke-momentum", "sum p^2/2M = %.6f MeV, TKE = %.6f MeV" % (t, sum(r["KE"]))))
    return out


def _neutron_cost(r, f):
    a, z = r["A"][f], r["Z"][f]
    k = 0 if f == 0 else r["nuf"][0]
    s = 0.0
    for i in range(k, k + r["nuf"][f]):
        s += r["cE"][i] + mx(z, a - 1) + MXN - mx(z, a)
        a -= 1
    return s, a


def _photon_restframe(r, f, a, axis):
    """rest-frame energies of the photons of fragment f; `axis` is the direction the cosine of the Doppler factor refers to"""
    b = norm(r["post"][f]) / mass(r["Z"][f], a)
    g0 = 0 if f == 0 else r["nugf"][0]
    return [r["gE"][i] * (1 - b * dot(axis, vec(r, "g", i))) / math.sqrt(1 - b * b) for i in range(g0, g0 + r["nugf"][f])]


XAXIS = (1.0, 0.0, 0.0)


def photons(r, f):
    """rest-frame photon energies, decoded about the x axis (the tree's convention) and about the fragment's direction"""
    s, a = _neutron_cost(r, f)
    n = norm(r["post"][f])
    fdir = [x / n for x in r["post"][f]]
    return s, _photon_restframe(r, f, a, XAXIS), _photon_restframe(r, f, a, fdir)


def topless(r, f, toplevel):
    """the fragment starts inside its own discrete levels, where its excitation is moved to the nearest level"""
    return r["nuf"][f] == 0 and r["U"][f] <= max(toplevel(r["Z"][f], r["A"][f])) + 0.05


def decay_energy(job, r, exact, toplevel):
    """sum of what the particles of each fragment carry away against its excitation energy; either decoding of the photon
    Doppler factor may balance (photon directions are judged by C04, not here)"""
    out = []
    for f in (0, 1):
        s, gx, gf = photons(r, f)
        if topless(r, f, toplevel):
            e = toplevel(r["Z"][f], r["A"][f])
            if len(e) == 1 or r["U"][f] > e[-1] - 1e-9:
                continue
            near = min(e, key=lambda x: abs(x - r["U"][f]))
            after = e[1 + min(range(len(e) - 1), key=lambda i: abs(e[i] - r["U"][f]))]
            if not any(abs(sum(g) - near) < 1e-4 or (not exact and sum(g) < near + 1e-4) for g in (gx, gf)):
                who = "%s fragment (Z=%d A=%d U=%.6f MeV)" % (("light", "heavy")[f], r["Z"][f], r["A"][f], r["U"][f])
                if any(abs(sum(g) - after) < 1e-4 or (not exact and sum(g) < after + 1e-4) for g in (gx, gf)):
                    out.append(("discrete-start", "%s: its photons carry %.4f MeV, the level after the nearest one (%.4f MeV)" % (who, sum(gx), near)))
                else:
                    out.append(("discrete", "%s: its photons carry %.4f MeV, its nearest level has %.4f MeV" % (who, sum(gx), near)))
            continue
        d = [r["U"][f] - s - sum(gx), r["U"][f] - s - sum(gf)]
        best = min(d, key=abs) if exact else max(d)
        who = "%s fragment (Z=%d A=%d U=%.6f MeV, %d n, %d g)" % (("light", "heavy")[f], r["Z"][f], r["A"][f], r["U"][f], r["nuf"][f], r["nugf"][f])
        if best < -1e-4:
            out.append(("overspent", "%s: emitted particles carry %.6f MeV more than its excitation energy" % (who, -best)))
        elif exact and best > 1e-4:
            out.append(("missing", "%s: %.6f MeV of its excitation energy is carried away by nothing" % (who, best)))
    return out


def doppler(job, r, toplevel):
    """C04: in a lossless decay the rest-frame photon energies add up to what the neutrons left of the excitation energy"""
    out = []
    for f in (0, 1):
        if topless(r, f, toplevel) or not r["nugf"][f]:
            continue
        s, gx, gf = photons(r, f)
        dx, df = r["U"][f] - s - sum(gx), r["U"][f] - s - sum(gf)
        who = "%s fragment (Z=%d A=%d)" % (("light", "heavy")[f], r["Z"][f], r["A"][f])
        if abs(df) < 1e-4:
            continue
        if abs(dx) < 1e-4:
            out.append(("doppler-x-axis", "%s: photon energies are Doppler-shifted with the angle to the x axis instead of the angle to the fragment's velocity" % who))
        else:
            out.append(("doppler", "%s: photon energies are not the rest-frame energies shifted by the fragment's velocity (sum off by %.6f MeV)" % (who, dx)))
    return out


def kinetic(job, r):
    out = []
    for f in (0, 1):
        p2 = dot(r["post"][f], r["post"][f])
        z, a = r["Z"][f], r["A"][f]
        want, pre = p2 / (2 * mass(z, a - r["nuf"][f])), p2 / (2 * mass(z, a))
        got = r["KEp"][f]
        if not abs(got - want) < 1e-7 * want:
            key = "kepost-premass" if abs(got - pre) < 1e-7 * pre else "kepost"
            out.append((key, "%s fragment: KE after emission %.9g MeV, p^2/2M of the residue is %.9g (with the mass before emission %.9g)" % (("light", "heavy")[f], got, want, pre)))
        n = norm(r["pre"][f])
        if not norm([x / n - y for x, y in zip(r["pre"][f], r["fd"][f])]) < 1e-9:
            out.append(("fragment-direction", "%s fragment: direction %s, momentum %s" % (("light", "heavy")[f], r["fd"][f], r["pre"][f])))
    return out


def wellformed(job, r):
    out = []
    t, w = job[4], job[5]
    k = allfinite(r)
    if k:
        return [("nonfinite", "%s = %r" % (k, r[k]))]
    for n, name in (("n", "lab neutron"), ("c", "c.m. neutron"), ("g", "photon"), ("p", "pre-fission neutron")):
        for i in range(len(r[n + "E"])):
            if not r[n + "E"][i] >= 0:
                out.append(("energy", "%s %d has energy %r" % (name, i, r[n + "E"][i])))
            l = norm(vec(r, n, i))
            if not abs(l - 1) < 1e-6:
                out.append(("direction", "%s %d (E=%g) has a direction of length %r" % (name, i, r[n + "E"][i], l)))
    for f in (0, 1):
        j2 = 2 * r["J"][f]
        if j2 != int(j2) or int(j2) % 2 != r["A"][f] % 2 or j2 < 0:
            out.append(("spin", "A=%d fragment with spin %r" % (r["A"][f], r["J"][f])))
        if r["par"][f] not in (1, -1):
            out.append(("parity", "parity %r" % r["par"][f]))
        if not r["U"][f] > 0:
            out.append(("excitation", "U=%r" % r["U"][f]))
        if not (r["KE"][f] > 0 and r["KEp"][f] > 0):
            out.append(("kinetic", "KE=%r KEpost=%r" % (r["KE"][f], r["KEp"][f])))
        if not (0 <= r["nuf"][f] <= 10 and 0 <= r["nugf"][f] <= 50):
            out.append(("multiplicity-range", "nu=%d nug=%d" % (r["nuf"][f], r["nugf"][f])))
    for i, x in enumerate(r["nage"]):
        if x != t:
            out.append(("neutron-age", "neutron %d age %r, event time %r" % (i, x, t)))
    for i, x in enumerate(r["gage"]):
        if x < t:
            out.append(("photon-age", "photon %d age %r before event time %r" % (i, x, t)))
        if w > 0 and x > t + w * (1 + 1e-12):
            out.append(("photon-window", "photon %d age %r later than the coincidence window %r" % (i, x, w)))
    if not r["oob"]:
        out.append(("index", "an index outside the particle list did not answer -1"))
    return out


# ------------------------------------------------------------------ yields mode
def parse_yields(path):
    out, cur = [], []
    for l in open(path):
        if l.startswith("#"):
            continue
        f = l.split()
        cur.append([int(f[0]), int(f[1]), float(f[2]), float(f[3]), float(f[4]), int(f[5]), float(f[6]), float(f[7]), float(f[8])])
        if len(cur) == 2:
            out.append(cur)
            cur = []
    return out


def judge_pair(prop, zaid, e, pr):
    (zl, al, kl, ul, jl, pl, lx, ly, lz), (zh, ah, kh, uh, jh, ph, hx, hy, hz) = pr
    zc, ac = core.compound(zaid, e)
    npre = ac - al - ah
    out = []
    if prop == "C01":
        if zl + zh != zc:
            out.append(("charge", "yields: Z %d+%d, compound %d" % (zl, zh, zc)))
        if not 0 <= npre <= (3 if e else 0):
            out.append(("mass-number", "yields: A %d+%d, compound %d" % (al, ah, ac)))
        if al > ah:
            out.append(("light-heavy", "yields: light A=%d, heavy A=%d" % (al, ah)))
        if not (0 < zl < al and 0 < zh < ah):
            out.append(("nuclide", "yields: Z=%d A=%d, Z=%d A=%d" % (zl, al, zh, ah)))
    elif prop == "C02":
        if npre == 0:
            d = [lx + hx, ly + hy, lz + hz - math.sqrt(2 * MN * e)]
            if not norm(d) < 0.05:
                out.append(("scission", "yields: momenta %r add up to %r" % (pr, d)))
    elif prop == "C03":
        ml, mh = mass(zl, al), mass(zh, ah)
        if not abs(kl * ml - kh * mh) < 1e-5 * kl * ml:
            out.append(("ke-sharing", "yields: KE %r %r" % (kl, kh)))
        if not (kl > 0 and kh > 0 and ul > 0 and uh > 0):
            out.append(("positive", "yields: KE %r %r U %r %r" % (kl, kh, ul, uh)))
        t = (lx * lx + ly * ly + lz * lz) / (2 * ml) + (hx * hx + hy * hy + hz * hz) / (2 * mh)
        if not abs(t - kl - kh) < (0.015 if npre == 0 else 0.06):
            out.append(("ke-momentum", "yields: sum p^2/2M = %r, TKE %r" % (t, kl + kh)))
        q = mx(zc, ac - npre) - mx(zl, al) - mx(zh, ah)
        es = 0.0 if e == 0.0 else e + mx(zc, ac - 1) + mx(0, 1) - mx(zc, ac)
        if npre == 0 and not abs(kl + kh + ul + uh - q - es) < 2e-3:
            out.append(("scission-energy", "yields: TKE+TXE = %.4f, available %.4f (Z %d A %d / Z %d A %d)" % (kl + kh + ul + uh, q + es, zl, al, zh, ah)))
    elif prop == "C05":
        v = [kl, ul, jl, lx, ly, lz, kh, uh, jh, hx, hy, hz]
        if not all(math.isfinite(x) for x in v):
            out.append(("nonfinite", "yields: %r" % pr))
        for a, j, p in ((al, jl, pl), (ah, jh, ph)):
            if 2 * j != int(2 * j) or int(2 * j) % 2 != a % 2 or j < 0:
                out.append(("spin", "yields: A=%d spin %r" % (a, j)))
            if p not in (1, -1):
                out.append(("parity", "yields: parity %r" % p))
    return out
