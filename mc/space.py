"""The bounded spaces of executions the event-mode checks enumerate (shared by C01-C05, C16-C19)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, levels

EGRID = [2.53e-8, 1e-6, 1e-3, 0.1, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 5.5, 6.0, 6.5, 7.0, 8.0, 9.0, 10.0, 11.0, 12.0, 13.0, 14.0,
         15.0, 16.0, 17.0, 18.0, 19.0, 20.0]


def configs(egrid=EGRID):
    return [(z, 0.0) for z in core.SF] + [(z, e) for z in core.NF for e in egrid]


def toplevel(text):
    """function (z,a) -> energies of the levels of the scheme in a level file (the ground state if there is none)"""
    top = {}
    cur = None
    for l in text.splitlines():
        if l.startswith("#"):
            continue
        f = l.split()
        if len(f) == 2:
            cur = int(f[0])
            top[cur] = []
        elif len(f) == 5:
            top[cur].append(float(f[0]))
    return lambda z, a: top.get(1000 * z + a) or [0.0]


# level files: name -> (text, is every decay lossless)
def levelfiles():
    return {"lossless": (levels.rich(icc=False, halflives=False), True),
            "rich": (levels.rich(), False),
            "stub": (levels.stub(), True)}


BASELINES = [(98252, 0.0, "s11"), (92235, 2.53e-8, "s12"), (94239, 14.0, "s13"), (92238, 18.0, "s14"), (93237, 20.0, "s15"), (94240, 0.0, "s16"), (92233, 8.0, "s17"), (94241, 12.0, "s18")]
DEVS = [1e-9, 0.25, 0.5, 0.75, 1 - 1e-9]
