"""C01-C05: every event of a bounded space of executions of the real library satisfies the conservation laws.

The environment of an event is its reaction, energy, level file, coincidence window and random stream.  Enumerated:
 A  reactions x energy grid x seeds (0-deviation streams) on three level files;
 B  for each baseline execution, every 1-deviation neighbour: each draw of the stream forced to each value of a small
    alphabet (thorough: also every pair among the draws that choose the fission event);
 D  fragment pairs given little excitation energy, down to fragments that start among their discrete levels;
 E  every fragment mass, for every reaction and every number of pre-fission neutrons open at the energy;
 C  yields mode: reactions x energy grid, long 0-deviation streams of the fission-event sampling alone.
"""
import collections, hashlib, itertools, json, math, os, sys, time
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, core, levels, oracle, space

PROP = sys.argv[1]
OFFSET = {"C01": 0, "C02": 1000, "C03": 2000, "C04": 3000, "C05": 4000}[PROP]


def judge(prop, job, r, lossless, top):
    if prop == "C01":
        return oracle.nucleons(job, r)
    if oracle.allfinite(r) and prop != "C05":
        return []                                   # C05 reports it
    if prop == "C02":
        return oracle.momentum(job, r)
    if prop == "C03":
        return oracle.scission_energy(job, r) + oracle.decay_energy(job, r, lossless and job[5] < 0, top)
    if prop == "C04":
        return oracle.frames(job, r) + oracle.kinetic(job, r) + (oracle.doppler(job, r, top) if lossless and job[5] < 0 else [])
    if prop == "C05":
        return oracle.wellformed(job, r)


def do_yields(arg):
    prop, exe, cwd, zaid, e, n, stream, path = arg
    r = core.run_batch(exe, [("Y", "y", zaid, e, n, path, stream)], cwd)[0]
    bad, seen, cnt = [], set(), 0
    if r["fate"] == "ok":
        try:
            for i, pr in enumerate(oracle.parse_yields(path)):
                cnt += 1
                seen.add((pr[0][0], pr[0][1], pr[1][1]))
                for k, m in oracle.judge_pair(prop, zaid, e, pr):
                    bad.append((k, "event %d: %s" % (i, m)))
        except Exception as ex:
            if prop == "C05":
                bad.append(("yields-format", repr(ex)))
    elif prop == "C05":
        bad.append(("fate-" + r["fate"], "yields run ended with %s (%s)" % (r["fate"], r.get("stderr", ""))))
    if os.path.exists(path):
        os.unlink(path)
    return arg, r["fate"], r.get("nd", 0), cnt, len(seen), bad[:20]


def main():
    c = core.Check(PROP, "model_checking")
    exe = build.program("evh", [build.src("evh.cpp")], "opt")
    files = space.levelfiles()
    tops = {k: space.toplevel(v[0]) for k, v in files.items()}
    dirs = {k: core.leveldir(v[0]) for k, v in files.items()}
    st = collections.Counter()
    finals = set()
    stats = collections.Counter()

    def run(jobs, lev):
        def on(j, r):
            st["exec"] += 1
            stats["fate-" + r["fate"]] += 1
            if r["fate"] != "ok":
                if PROP == "C05":
                    rr = core.run_batch(exe, [j], dirs[lev], cpu=200)[0]
                    if rr["fate"] != "ok":
                        c.violation("fate-" + rr["fate"], "no event: %s (%s)" % (rr["fate"], rr.get("stderr", "")), {"job": core.line(j), "levels": lev})
                return
            st["draws"] += r["nd"]
            stats["npre%d" % r["npre"]] += 1
            stats["nu%d" % min(r["nu"], 9)] += 1
            if r["A"][0] == r["A"][1]:
                stats["symmetric"] += 1
            finals.add(hashlib.md5(json.dumps([r[k] for k in ("A", "Z", "U", "J", "par", "nE", "gE", "pE")]).encode()).hexdigest()[:16])
            bad = judge(PROP, j, r, files[lev][1], tops[lev])
            for k, m in bad:
                # confirm alone in a fresh process, so that the report is about this execution
                if k not in c.viol and not any(k == x["key"] for x in c.known):
                    rr = core.run_batch(exe, [j], dirs[lev])[0]
                    if rr["fate"] != "ok" or not any(kk == k for kk, _ in judge(PROP, j, rr, files[lev][1], tops[lev])):
                        stats["unconfirmed"] += 1
                        c.violation(k + "-in-sequence", "only after other events: " + m, {"job": core.line(j), "levels": lev})
                        continue
                c.violation(k, "%d at %g MeV, levels %s, stream %s, window %g: %s" % (j[2], j[3], lev, j[6], j[5], m), {"job": core.line(j), "levels": lev})
            if not bad and len(c.samples) < 3:
                c.sample({"job": core.line(j).strip(), "levels": lev, "A": r["A"], "Z": r["Z"], "npre": r["npre"], "nu": r["nuf"], "nug": r["nugf"]})
        core.explore(exe, jobs, dirs[lev], on)

    S = c.seed * 100000 + OFFSET
    # --- A
    nseed = (4, 4, 3) if c.quick else (60, 60, 30)
    cfg = space.configs()
    k = 0
    for lev, ns in zip(("lossless", "rich", "stub"), nseed):
        jobs = []
        for (z, e) in cfg:
            for s in range(ns):
                k += 1
                tw = [-1.0, 1e-8, 1e-6, 1e-3][k % 4] if lev == "rich" else -1.0
                tm = [0.0, 0.0, 2.5][k % 3] if PROP == "C05" else 0.0
                jobs.append(core.event(len(jobs), z, e, "s%d" % (S + k), tw, tm))
        run(jobs, lev)
    st["A"] = st["exec"]
    # --- B
    nb = 3 if c.quick else 8
    devs = [1e-9, 0.5, 1 - 1e-9] if c.quick else space.DEVS
    rot = OFFSET // 1000
    base = (space.BASELINES[rot:] + space.BASELINES[:rot])[:nb]
    for (z, e, s) in base:
        r = core.run_batch(exe, [core.event("b", z, e, s)], dirs["lossless"])[0]
        if r["fate"] != "ok":
            continue
        jobs = [core.event(0, z, e, "%s;%d=%.12g" % (s, i, v)) for i in range(min(r["nd"], 260 if c.quick else 600)) for v in devs]
        n1 = len(jobs)
        if not c.quick:
            h = 24
            jobs += [core.event(0, z, e, "%s;%d=%.12g;%d=%.12g" % (s, i, v, j, w)) for i in range(h) for j in range(i + 1, h) for v in devs[::2] for w in devs[::2]]
        run(jobs, "lossless")
        st["B"] += len(jobs)
    # --- D: fragments with little excitation energy (they start among their discrete levels)
    import cascade
    for z, e in ((98252, 0.0), (92235, 2.53e-8)) if c.quick else ((98252, 0.0), (92235, 2.53e-8), (94240, 0.0), (94239, 1.0), (92238, 3.0)):
        b = cascade.Bench(exe, z, e, (0.5,) if c.quick else (0.36, 0.5, 0.64), 12 if c.quick else None)
        run([b.job(0, b.head(p[0], p[1], b.gauss(p, t))) for p in b.pairs for t in (0.2, 0.7, 1.5, 3.0, 6.0, 12.0)], "lossless")
    st["D"] = st["exec"] - st["A"] - st["B"]
    # --- E: every fragment mass of every reaction, for every number of pre-fission neutrons
    import sampling
    conf = []
    for z, e in [(z, 0.0) for z in core.SF] + [(z, e) for z in core.NF for e in ((2.53e-8, 18.0) if c.quick else (2.53e-8, 3.0, 7.0, 10.0, 14.0, 17.0, 20.0))]:
        for u in [1e-4] if e < 5 else [1e-4, 0.35, 0.6, 0.85]:
            conf.append((z, e, u, "s%d;0=%.12g;1=0;2=%.12g" % (S + 31 * len(conf), u, 1 - 1e-9)))
    ns = {}

    def chance(j, r):
        if r["fate"] == "ok":
            ns[int(j[1])] = r["npre"]
    core.explore(exe, [core.event(i, z, e, (s if u > 0.01 else s.rsplit(";", 1)[0])) for i, (z, e, u, s) in enumerate(conf)], dirs["stub"], chance)
    jobs, far, done = [], [], set()
    for i, (z, e, u, s) in enumerate(conf):
        n = ns.get(i)
        if n is None or (z, e, n) in done:
            continue
        done.add((z, e, n))
        m = sampling.Model(z, e, n, e or 1.0, "first mode")
        at = 3 + 3 * n if n else 2
        if not n:
            s = s.rsplit(";", 1)[0]
        s += "".join(";%d=0" % (4 + 3 * q) for q in range(n))
        for a in range(m.amin, m.amax + 1):
            if c.quick and n and (a + i) % 2 and abs(2 * a - m.ac) > 4:
                continue
            for rep in range(1 if c.quick else 4):
                s2 = "s%d" % (S + 50000 + 17 * len(jobs)) + s[s.index(";"):]
                tm = [0.0, 0.0, 2.5][len(jobs) % 3] if PROP == "C05" else 0.0
                jobs.append(core.event(0, z, e, s2 + ";%d=%.12g;%d=1e-06" % (at, (a - m.amin + 0.5) / (m.amax - m.amin + 1), at + 1), -1.0, tm))
        # F: the kinetic energy far below and above its mean, high fragment spins
        for k, a in enumerate(range(m.amin, m.amax + 1, 5 if c.quick else 2)):
            for g in ("0.49998", "0.493") if not c.quick or k % 2 else ("0.49998",):
                hs = (";%d=%.12g;%d=0;%d=%.12g;%d=0" % (at + 6, (20.5 + k % 9) / 50, at + 7, at + 8, (14.5 + k % 7) / 50, at + 9)) if k % 3 == 1 else ""
                s2 = "s%d" % (S + 50000 + 17 * len(jobs) + len(far)) + s[s.index(";"):]
                far.append(core.event(0, z, e, s2 + ";%d=%.12g;%d=1e-06;%d=0.5;%d=1e-06;%d=%s;%d=0.5%s" % (at, (a - m.amin + 0.5) / (m.amax - m.amin + 1), at + 1, at + 2, at + 3, at + 4, g, at + 5, hs), -1.0, 0.0))
    e0 = st["exec"]
    run(jobs, "lossless")
    st["E"] = st["exec"] - e0
    run(far, "lossless")
    st["F"] = st["exec"] - e0 - st["E"]
    stats["mass_reaction_chances"] = len(done)
    # --- C
    n = 1500 if c.quick else 20000
    nhi = n // 8                                   # above the second-chance threshold an event costs ten times as much
    args = [(PROP, exe, dirs["stub"], z, e, n if e < 6 else nhi, "s%d" % (S + 7 * i), os.path.join(core.scratch(), "y%d" % i)) for i, (z, e) in enumerate(cfg)]
    if PROP != "C04":
        with ProcessPoolExecutor(core.NPROC) as ex:
            for arg, fate, nd, cnt, nseen, bad in ex.map(do_yields, args, chunksize=2):
                st["exec"] += 1
                st["draws"] += nd
                st["C"] += cnt
                st["Cstates"] += nseen
                for kk, m in bad:
                    c.violation(kk, "yields run %d at %g MeV n=%d %s: %s" % (arg[3], arg[4], arg[5], arg[6], m), {"yields": arg[3:7]})
    c.cov = {"states": len(finals) + st["Cstates"], "transitions": st["draws"], "traces_validated_against_impl": st["exec"],
             "events_judged": st["A"] + st["B"] + st["D"] + st["E"] + st["F"], "extreme_kinetic_energy_events": st["F"], "mass_enumeration_events": st["E"], "low_excitation_events": st["D"], "one_deviation_executions": st["B"], "yields_pairs_judged": st["C"],
             "distinct_events": len(finals), "distinct_yield_partitions": st["Cstates"],
             "outcomes": dict(stats), "exhaustive": True,
             "bound": "13 reactions x %d energies x %s seeds on 3 level files; all 1-deviations (%s) of %d baseline executions%s; every fragment mass of 13 reactions for every number of pre-fission neutrons; yields %d events per reaction and energy (%d from 6 MeV up)" % (
                 len(space.EGRID), nseed, devs, nb, "" if c.quick else " and all 2-deviations of their first 24 draws", n, nhi)}
    c.assumptions = ["random draws outside the enumerated streams are not covered", "the shipped repository has no discreteLevels.dat: level schemes are synthetic"]
    # vacuity: the exploration must have produced real events of several kinds
    if stats["fate-ok"] < 0.5 * (st["A"] + st["B"]) or not (stats["npre0"] and stats["npre1"]):
        if PROP == "C05":
            c.violation("vacuous", "most executions produced no event: %s" % dict(stats))
        elif not c.viol:
            print("note: few events to judge: %s" % dict(stats))
    c.finish()


main()
