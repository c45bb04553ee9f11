"""C06: event generation is memory-safe, uses nothing uninitialised, and terminates.

Executions of the library built with the address and undefined-behaviour sanitizers over: reactions x energies x level files
(normal, minimal, missing nuclei, longest schemes, most branches, full table) x streams; every 1-deviation neighbour of
baseline streams; yields mode.  Uninitialised reads: the same executions in builds whose automatic variables start as zeros and
as a pattern, with three fillings of fresh heap memory, must answer identically, bit for bit."""
import collections, json, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, core, levels, space

build.VARIANTS["zero"] = ["-O1", "-g0", "-ftrivial-auto-var-init=zero"]
build.VARIANTS["pattern"] = ["-O1", "-g0", "-ftrivial-auto-var-init=pattern"]


LONGEST = 199   # levels per nucleus (MAX_LEVELS - 1 of cgmfEvents.cpp)
TABLE = 3500    # nuclei (MAX_NUCLEI of ripl2levels.cpp)


def files():
    rng = list(levels.nuclei_range())

    def spin(a):
        return 0.5 if a % 2 else 0.0
    out = {"rich": levels.rich(), "stub": levels.stub()}
    out["ground"] = levels.fmt([(1000 * z + a, [(0.0, spin(a), 1, -1.0, [])]) for z, a in rng])
    out["two"] = levels.fmt([(1000 * z + a, [(0.0, spin(a), 1, -1.0, []), (0.05 + (z % 7) * 0.3, spin(a) + 2, -1, 1e-9, [])]) for z, a in rng if a % 3])
    # chains of 24 levels, no gamma listed or one step down each
    out["chain"] = levels.fmt([(1000 * z + a, [(0.0, spin(a), 1, -1.0, [])] + [(0.06 * i, spin(a) + i % 5, 1 if i % 2 else -1, 0.0, [(i - 1, 1.0, 0.1)] if (z + a) % 2 else []) for i in range(1, 25)]) for z, a in rng])
    # the longest schemes the format allows, every level to every lower one (at most 60)
    ml = LONGEST
    def long(z, a):
        return [(0.0, spin(a), 1, -1.0, [])] + [(0.02 * i, spin(a) + i % 8, 1 if i % 3 else -1, 0.0, [(j, 0.5, 0.3) for j in range(max(0, i - 60), i)]) for i in range(1, ml)]
    out["long"] = levels.fmt([(1000 * z + a, long(z, a)) for z, a in rng if abs(z - a * 0.395) < 1.2])
    # a table as full as the library's
    full = [(1000 * z + a, [(0.0, spin(a), 1, -1.0, []), (0.4, spin(a) + 1, 1, 0.0, [(0, 1.0, 0.0)])]) for z, a in rng]
    extra = [(1000 * z + a, [(0.0, spin(a), 1, -1.0, [])]) for a in range(200, 300) for z in range(80, 100)]
    out["full"] = levels.fmt((full + extra)[:TABLE])
    toobig = levels.fmt((full + extra)[:TABLE + 1]), levels.fmt((full + extra)[:TABLE + 400])
    assert len(full + extra) > TABLE + 400
    # at and past the library's limits on levels per nucleus and photons per cascade: refusing is fine, overrunning is not
    def tall(nl, step, allto):
        def one(z, a):
            return [(0.0, spin(a), 1, -1.0, [])] + [(step * i, spin(a) + i % 4, 1 if i % 2 else -1, 0.0, [(j, 1.0 / i, 0.1) for j in range(i)] if allto else [(i - 1, 1.0, 0.1)]) for i in range(1, nl)]
        return levels.fmt([(1000 * z + a, one(z, a)) for z, a in rng if abs(z - a * 0.395) < 1.2])
    limits = {"%d levels" % k: tall(k, 0.015, False) for k in (LONGEST + 1, LONGEST + 2, LONGEST + 40)}
    limits["staircase"] = tall(LONGEST, 0.012, False)
    out["branches"] = tall(130, 0.03, True)
    return out, toobig, limits


def strip(r):
    return json.dumps({k: v for k, v in r.items() if k not in ("stderr", "rc")}, sort_keys=True)


def main():
    c = core.Check("C06", "model_checking")
    asan = build.program("evh", [build.src("evh.cpp")], "asan")
    fs, toobig, limits = files()
    dirs = {k: core.leveldir(v) for k, v in fs.items()}
    n = collections.Counter()
    S = 60000 + 1000 * c.seed
    hi = [2.53e-8, 0.7, 5.6, 7.9, 11.3, 14.0, 17.2, 20.0]

    def on_for(lev):
        def on(j, r):
            n["executions"] += 1
            n["draws"] += r.get("nd", 0)
            if r["fate"] != "ok":
                e = r.get("stderr", "")
                key = next((l.strip() for l in e.splitlines() if "SUMMARY" in l or "runtime error" in l), r["fate"])
                if r["fate"] == "draws" and "=0;" in j[-1] + ";":
                    # a draw of exactly 0 accepts a charge of negligible probability
                    return c.violation("tiny-acceptance-draw", "%s: no kinetic energy is possible for the fragments and it is sampled for ever" % core.line(j).strip(), {"job": core.line(j), "levels": lev})
                key = "%s: %s" % (r["fate"], key.split("/repo/")[-1][:110])
                c.violation(key, "%s, levels %s: %s" % (core.line(j).strip(), lev, e[:300] or r["fate"]), {"job": core.line(j), "levels": lev})
        return on
    # A: reactions x energies x level files
    k = 0
    for fi, lev in enumerate(fs):
        jobs = []
        for z, e in [(z, 0.0) for z in core.SF] + [(z, e) for z in core.NF for e in (hi if not c.quick else sorted(set(hi[fi % 2::2] + [20.0])))]:
            for _ in range(1 if c.quick else 6):
                k += 1
                jobs.append(core.event("a", z, e, "s%d" % (S + k), [-1.0, 1e-8, 1e-3][k % 3], 0.0))
        core.explore(asan, jobs, dirs[lev], on_for(lev), cpu=300)
    # a level file with more nuclei than the table holds is refused
    for t in toobig:
        j = core.event("a", 98252, 0.0, "s1")
        r = core.run_batch(asan, [j], core.leveldir(t))[0]
        n["executions"] += 1
        if r["fate"] not in ("exit", "ok"):
            c.violation("table-overflow", "a level file with more than %d nuclei: %s %s" % (TABLE, r["fate"], r.get("stderr", "")[:300]), {"job": core.line(j)})
    for name, t in limits.items():
        d = core.leveldir(t)

        def refused(j, r):
            n["executions"] += 1
            n["refused"] += r["fate"] == "exit"
            if r["fate"] not in ("exit", "ok"):
                c.violation("limit %s: %s" % (name.split()[-1], r["fate"]), "%s, level file %s: %s %s" % (core.line(j).strip(), name, r["fate"], r.get("stderr", "")[:300]), {"job": core.line(j), "levels": name})
        core.explore(asan, [core.event("l", z, e, "s%d" % (S + i)) for i, (z, e) in enumerate([(98252, 0.0), (92235, 2.53e-8), (94239, 14.0)] * (8 if name == "staircase" else 1))], d, refused, cpu=300)
    n["A"] = n["executions"]
    # B: 1-deviation neighbours
    for z, e, s in space.BASELINES[:2 if c.quick else 8]:
        r = core.run_batch(asan, [core.event("b", z, e, s)], dirs["rich"], cpu=300)[0]
        if r["fate"] != "ok":
            on_for("rich")(core.event("b", z, e, s), r)
            continue
        step = 1
        jobs = [core.event("b", z, e, "%s;%d=%.12g" % (s, i, v)) for i in range(0, min(r["nd"], 90 if c.quick else 400), step) for v in ([0.0, 1e-9, 1 - 1e-12] if c.quick else [0.0, 1e-9, 0.5, 1 - 1e-12])]
        core.explore(asan, jobs, dirs["rich"], on_for("rich"), cpu=300)
    n["B"] = n["executions"] - n["A"]
    # C: yields
    def yl(t):
        z, e = t
        j = ("Y", "y", z, e, 12 if c.quick else 60, os.path.join(core.scratch(), "y%d-%g" % t), "s%d" % (S + z))
        return j, core.run_batch(asan, [j], dirs["stub"], cpu=300)[0]
    with ThreadPoolExecutor(core.NPROC) as ex:
        for j, r in ex.map(yl, [(z, 0.0) for z in core.SF] + [(z, e) for z in core.NF for e in (hi[::3] if c.quick else hi)]):
            on_for("stub")(j, r)
    n["C"] = n["executions"] - n["A"] - n["B"]
    # D: uninitialised memory
    bs = {v: build.program("evh", [build.src("evh.cpp")], v) for v in ("zero", "pattern")}
    envs = [("zero", "0"), ("pattern", "0"), ("zero", "85"), ("pattern", "170")]
    jobs = []
    for z, e in [(z, 0.0) for z in core.SF] + [(z, e) for z in core.NF for e in (hi if not c.quick else (2.53e-8, 7.9, 18.0))]:
        k += 1
        jobs.append((core.event("u", z, e, "s%d" % (S + k)), "rich" if k % 2 else "chain"))
        if k % 4 == 0:
            jobs.append((("Y", "u", z, e, 5, os.path.join(core.scratch(), "u%d" % k), "s%d" % (S + k)), "stub"))

    def diff(t):
        j, lev = t
        got = []
        for v, p in envs:
            jj = j if j[0] == "E" else j[:5] + (j[5] + v + p,) + j[6:]
            r = core.run_batch(bs[v], [jj], dirs[lev], env={"MALLOC_PERTURB_": p, "EVH_PLAINMALLOC": "1"}, cpu=200)[0]
            s = strip(r)
            if j[0] == "Y":
                s += open(jj[5]).read() if os.path.exists(jj[5]) else "no file"
            got.append(s)
        return j, lev, got
    with ThreadPoolExecutor(core.NPROC) as ex:
        for j, lev, got in ex.map(diff, jobs):
            n["uninit"] += len(got)
            if len(set(got)) != 1:
                i = next(i for i in range(len(got)) if got[i] != got[0])
                c.violation("uninitialised", "%s, levels %s: the answer depends on the contents of fresh memory (%s against %s)" % (core.line(j).strip(), lev, envs[0], envs[i]), {"job": core.line(j), "levels": lev})
    c.cov = {"states": n["executions"] + n["uninit"], "transitions": n["draws"], "sanitized_executions": n["executions"], "reaction_energy_levelfile": n["A"],
             "one_deviation": n["B"], "yields_runs": n["C"], "memory_filling_runs": n["uninit"], "level_files": len(fs), "exhaustive": True,
             "bound": "13 reactions x energies x %d level files; all 1-deviations of the first draws of the baselines" % len(fs)}
    c.sample({"job": core.line(jobs[0][0]).strip()})
    c.assumptions = ["a sanitizer sees an error when an execution reaches it; executions outside the enumeration are not covered",
                     "level files are well formed (numbers where numbers are expected, final levels below the initial one)",
                     "termination: 300 s of CPU and 20 million draws per event"]
    c.finish()


if __name__ == "__main__":
    main()
