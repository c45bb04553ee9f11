"""C07, C22: every sequence of library operations up to a depth, on the real library (a process per tree node, fork for the
branching), each observation compared with the one the same operation gives in a fresh process."""
import collections, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, core, levels, space

PROP = sys.argv[1]

# operations that share as much cached library state as possible while needing different contents of it
C07 = [
    ("g0", 94239, 2.53e-8, 0.0, -1.0, "s3"),      # compound Pu-240
    ("g1", 94240, 0.0, 0.0, 1e-8, "s3"),          # the same nucleus, spontaneous
    ("g2", 92235, 5.5, 0.0, -1.0, "s21"),
    ("g3", 92235, 14.0, 0.0, 1e-6, "s22"),        # same target, pre-fission neutrons
    ("g4", 92238, 18.0, 0.0, 0.0, "s23"),         # pre-equilibrium
    ("g5", 98252, 0.0, 2.5, -1.0, "s24"),         # later event time
    ("g6", 93237, 20.0, 0.0, -1.0, "s25"),
    ("g7", 94239, 2.53e-8, 0.0, 1e-8, "s3"),      # g0 with another window
    ("g8", 92234, 6.0, 0.0, -1.0, "s27"),
    ("g9", 92235, 1.0, 0.0, -1.0, "s21"),
    ("g10", 94239, 15.0, 0.0, -1.0, "s29"),
    ("y0", 92235, 14.0, 20, "-", "s31"),
    ("y1", 98252, 0.0, 20, "-", "s32"),
]
# every reaction, several energies, windows and times: every ordered pair of operations
C07W = [("g%d" % (100 + i), z, 0.0, [0.0, 3.0][i % 2], [-1.0, 1e-8, 0.0][i % 3], "s%d" % (41 + i)) for i, z in enumerate(core.SF)] + \
       [("g%d" % (200 + 10 * i + k), z, e, [0.0, 0.0, 1e-7][(i + k) % 3], [-1.0, 1e-8, 1e-6, 0.0][(i + k) % 4], "s%d" % (61 + 3 * i + k)) for i, z in enumerate(core.NF) for k, e in enumerate((2.53e-8, 3.0, 8.5, 14.0, 20.0))] + \
       [("y%d" % (2 + i), z, e, 15, "-", "s%d" % (91 + i)) for i, (z, e) in enumerate([(92238, 19.0), (94240, 0.0), (94241, 1.0)])]


def scripted(cell, g, seed=7):
    """a stream that picks the fragment mass and the kinetic energy: little (g large) or very much excitation energy (g < 0.5)"""
    return "s%d;0=0.0001;1=0.0;2=%r;3=0.0;4=0.5;5=0.0;6=%r;7=0.5" % (seed, cell, g)


C07W += [("g%d" % (300 + i), z, e, 0.0, -1.0, scripted(cell, g, 7 + i)) for i, (z, e, cell, g) in enumerate([
    (98252, 0.0, 0.5792079207920792, 0.50038), (98252, 0.0, 0.5792079207920792, 0.50486), (92235, 2.53e-8, 0.7470588235294118, 0.537),
    (92235, 2.53e-8, 0.7470588235294118, 0.5764), (92235, 2.53e-8, 0.7470588235294118, 0.6967), (94240, 0.0, 0.7413793103448276, 0.5864),
    (94239, 2.53e-8, 0.7413793103448276, 0.646), (92235, 2.53e-8, 0.7470588235294118, 0.49998)]
    + [(92235, 2.53e-8, 0.7470588235294118, x) for x in (0.5371, 0.5372, 0.5373, 0.5374, 0.5375)] + [(98252, 0.0, 0.5792079207920792, x) for x in (0.50039, 0.5004, 0.50041)])]
C22 = [
    ("c0", 92235, 14.0, 0.0, -1.0, "s22"),
    ("c1", 98252, 0.0, 0.0, 1e-8, "s24"),
    ("d",), ("x",), ("v",),
    ("y0", 92238, 7.0, 5, "-", "s31"),
]
C22B = [
    ("c0", 92238, 18.0, 0.0, -1.0, "s23"),
    ("c1", 94240, 0.0, 1.0, -1.0, "s26"),
    ("c2", 94239, 2.53e-8, 0.0, 1e-8, "s3"),
    ("d",), ("x",),
]
C22C = [("c%d" % i, 92235, 20.0, 0.0, -1.0, "s%d;0=%r;1=0.0%s" % (50 + i, u, ";2=0.999999999" if u > 0.01 else "")) for i, u in enumerate((1e-4, 0.35, 0.6, 0.97))] + [("d",), ("x",)]


def line(o):
    return " ".join(repr(x) if isinstance(x, float) else str(x) for x in o)


def tree(exe, ops, depth, slots, cwd, cpu):
    """all sequences; yields result dicts"""
    f = os.path.join(core.scratch(), "alpha%d" % id(ops))
    open(f, "w").write("".join(line(o) + "\n" for o in ops))
    e = dict(os.environ)
    e.update(core.ASAN_ENV)
    e["EVH_CPU"] = str(cpu)

    def go(first):
        err = open(os.path.join(core.scratch(), "err"), "ab")
        p = subprocess.run([exe, str(depth), str(slots), f, core.scratch(), core.DATA, first], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        rs = []
        for l in p.stdout.decode(errors="replace").splitlines():
            try:
                rs.append(json.loads(l))
            except ValueError:
                rs.append({"path": "?", "died": "unreadable " + l[:80]})
        if p.returncode:
            rs.append({"path": first, "died": "status %d" % p.returncode})
        return rs, p.stderr.decode(errors="replace")
    names = [o[0] for o in ops]
    if depth < 3:
        firsts = [n for n in names if n != "d"]
    else:   # one job per pair of first operations
        firsts = ["%s,%s" % (a, b if b != "d" else "d0") for a in names if a != "d" for b in names if b != "d" or a[0] == "c"]
    with ThreadPoolExecutor(core.NPROC) as ex:
        seen = set()
        for rs, err in ex.map(go, firsts):
            yield [r for r in rs if (r.get("path"), "died" in r, r.get("fate")) not in seen], err
            seen.update((r.get("path"), "died" in r, r.get("fate")) for r in rs)


def debruijn(k, n):
    """a cyclic sequence over range(k) containing every word of length n once"""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq


def windows(c, cwd, ops, n, st, outcomes, desc):
    """long sequences in which every word of n operations occurs: each operation after every n-1 preceding ones"""
    evh = build.program("evh", [build.src("evh.cpp")], "opt")
    seq = debruijn(len(ops), n)
    seq += seq[:n - 1]
    m = (len(seq) + 2 * core.NPROC - 1) // (2 * core.NPROC)
    chunks = [seq[max(0, i - n + 1):i + m] for i in range(0, len(seq), m)]

    def job(i, k):
        o = ops[k]
        if o[0][0] == "g":
            return core.event(i, o[1], o[2], o[5], o[4], o[3])
        return ("Y", str(i), o[1], o[2], o[3], os.path.join(core.scratch(), "w%d.%d" % (id(ops), i)), o[5])

    def canon(k, r):
        if r["fate"] == "ok" and ops[k][0][0] == "y":
            f = r["file"]
            r = dict(r, text=open(f).read())
            os.unlink(f)
        return json.dumps({a: b for a, b in r.items() if a not in ("id", "file")}, sort_keys=True)

    def go(arg):
        base, ch = arg
        jobs = [job(base + i, k) for i, k in enumerate(ch)]
        rs = core.run_batch(evh, jobs, cwd)
        for j, r in zip(jobs, rs):
            if j[0] == "Y":
                r["file"] = j[5]
        return [canon(k, r) for k, r in zip(ch, rs)]
    with ThreadPoolExecutor(core.NPROC) as ex:
        ref = [x[0] for x in ex.map(go, [(10 ** 6 + k, [k]) for k in range(len(ops))])]
        base = [sum(len(x) for x in chunks[:i]) for i in range(len(chunks))]
        for ch, rs in zip(chunks, ex.map(go, list(zip(base, chunks)))):
            for i, (k, r) in enumerate(zip(ch, rs)):
                st["nodes"] += 1
                st["compared"] += 1
                outcomes.add((k, r))
                if r != ref[k]:
                    a, b = json.loads(r), json.loads(ref[k])
                    d = [x for x in b if a.get(x) != b[x]]
                    # shortest suffix of the history that still shows it
                    hist = ch[:i]
                    for L in (range(0, min(6, len(hist)) + 1) if "differs-" + ops[k][0] not in c.viol else ()):
                        w = hist[len(hist) - L:] + [k]
                        if go((2 * 10 ** 6 + st["shrink"] * 100, w))[-1] != ref[k]:
                            hist = w[:-1]
                            break
                        st["shrink"] += 1
                    c.violation("differs-" + ops[k][0], "%s after %s differs from the same operation in a fresh process in %s" % (line(ops[k]), [ops[x][0] for x in hist][-8:], d),
                                {"sequence": [line(ops[x]) for x in hist] + [line(ops[k])]})
    desc.append("every word of %d operations of %d inside long sequences (%d operations)" % (n, len(ops), len(seq)))


def main():
    c = core.Check(PROP, "model_checking")
    cwd = core.leveldir(levels.rich())
    st = collections.Counter()
    outcomes = set()
    plans = []
    desc = []
    if PROP == "C07":
        plans = [("opt", C07, 2 if c.quick else 3, 1)]
        windows(c, cwd, C07, 3 if c.quick else 4, st, outcomes, desc)
        windows(c, cwd, C07W, 2, st, outcomes, desc)
    else:
        plans = [("opt", C22, 4 if c.quick else 6, 2), ("asan", C22, 3 if c.quick else 5, 2), ("opt", C22B, 4 if c.quick else 6, 3), ("asan", C22C, 2 if c.quick else 4, 3), ("opt", C22C, 3 if c.quick else 5, 3)]
        if not c.quick:
            plans.append(("asan", C22B, 5, 3))
    for variant, ops, depth, slots in plans:
        exe = build.program("seqh", [build.src("seqh.cpp")], variant)
        cpu = 30 if variant == "opt" else 200
        # reference: each operation alone in a fresh process
        ref = {}
        for rs, err in tree(exe, ops, 1, slots, cwd, cpu):
            for r in rs:
                if "obs" not in r:
                    if r.get("fate") or r.get("died"):
                        c.violation("first", "%s alone: %s %s" % (r.get("path") or r.get("id"), r.get("died") or r.get("fate"), core.trim(err)), {"variant": variant, "sequence": r.get("path")})
                    continue
                for o in r["obs"].split():
                    k, v = o.split(":")
                    ref[k] = v
        n0 = st["nodes"]
        for rs, err in tree(exe, ops, depth, slots, cwd, cpu):
            for r in rs:
                if "fate" in r:
                    c.violation("fate-" + r["fate"], "%s after %r" % (r["fate"], r["id"]), {"variant": variant, "sequence": r["id"]})
                    continue
                st["nodes"] += 1
                if "died" in r:
                    c.violation("died", "%s build: sequence %r: %s %s" % (variant, r["path"], r["died"], core.trim(err)), {"variant": variant, "sequence": r["path"], "alphabet": [line(o) for o in ops]})
                    continue
                outcomes.add((r["path"].split()[-1], r["obs"]))
                for o in r["obs"].split():
                    st["compared"] += 1
                    k, v = o.split(":")
                    if k in ref and ref[k] != v:
                        c.violation("differs-" + k, "%s build: after the sequence %r, %s differs from the same operation in a fresh process" % (variant, r["path"], k),
                                    {"variant": variant, "sequence": r["path"], "alphabet": [line(o) for o in ops]})
                if len(c.samples) < 4 and len(r["path"].split()) == depth:
                    c.sample({"sequence": r["path"], "observed": r["obs"]})
        desc.append("%s: %d operations, depth %d, %d live events, %d sequences" % (variant, len(ops), depth, slots, st["nodes"] - n0))
        if len(ref) < 2:
            c.violation("vacuous", "no operation of the alphabet produced an event")
    c.cov = {"states": len(outcomes), "transitions": st["nodes"], "traces_validated_against_impl": st["nodes"], "observations_compared": st["compared"], "exhaustive": True, "bound": "; ".join(desc)}
    c.assumptions = ["events are compared through every public accessor", "level schemes are synthetic"]
    c.finish()


main()
