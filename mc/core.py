"""Exploration core: runs scripted executions of the real library in parallel worker processes and collects the results."""
import atexit, collections, itertools, json, os, queue, re, shutil, signal, subprocess, sys, tempfile, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, levels

VERIF = build.VERIF
REPO = build.REPO
DATA = os.path.join(REPO, "data")
NPROC = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:malloc_context_size=8",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98"}

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="cgmfmc.")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *a: sys.exit(3))
    return _scratch


_dirs = {}


def leveldir(text, data=None):
    """A directory whose discreteLevels.dat holds `text` (workers run with it as the current directory)."""
    if text not in _dirs:
        d = os.path.join(scratch(), "lev%d" % len(_dirs))
        os.makedirs(d)
        with open(os.path.join(d, "discreteLevels.dat"), "w") as f:
            f.write(text)
        _dirs[text] = d
    return _dirs[text]


def event(id, zaid, einc, stream, timew=-1.0, time=0.0):
    return ("E", str(id), int(zaid), float(einc), float(time), float(timew), stream)


def line(job):
    if job[0] == "E":
        _, i, z, e, t, w, s = job
        return "E %s %d %r %r %r %s\n" % (i, z, e, t, w, s)
    if job[0] == "X":
        return "X\n"
    if job[0] == "Y":
        return "Y %s %d %r %d %s %s\n" % job[1:]
    raise ValueError(job)


def run_batch(exe, jobs, cwd, data=DATA, env=None, cpu=60, wall=None):
    """Runs jobs in one process; returns a list of result dicts (same order). A job that kills the process gets
    fate crash/exit/hang/draws and the batch resumes after it in a fresh process."""
    res = []
    todo = list(jobs)
    e = dict(os.environ)
    e.update(ASAN_ENV)
    e["EVH_CPU"] = str(cpu)
    e.update(env or {})
    while todo:
        err = tempfile.TemporaryFile()
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, cwd=cwd, env=e)
        inp = ("D %s\n" % data) + "".join(line(j) for j in todo)
        try:
            so, _ = p.communicate(inp.encode(), timeout=wall)
        except subprocess.TimeoutExpired:
            p.kill()
            so, _ = p.communicate()
        got = [json.loads(x) for x in so.decode(errors="replace").splitlines() if x.startswith("{") and x.endswith("}")]
        k = len(got)
        bad = p.returncode != 0
        if k and got[-1].get("fate") in ("exit", "hang", "draws"):
            bad = True
        elif bad or k < len(todo):
            # died inside job k (or in the destructor of job k-1 when every job was answered)
            if k < len(todo):
                got.append({"id": todo[k][1] if len(todo[k]) > 1 else todo[k][0], "fate": "crash"})
            else:
                got[-1] = dict(got[-1], fate="crash")
            k = len(got)
        if bad or (k and got[-1]["fate"] != "ok"):
            err.seek(0)
            got[-1]["rc"] = p.returncode
            got[-1]["stderr"] = trim(err.read().decode(errors="replace"))
        err.close()
        res += got
        todo = todo[len(got):]
    return res


def trim(s):
    keep = [l for l in s.splitlines() if re.search(r"ERROR|runtime error|SUMMARY|#[0-4] |rror|not|Too|too", l)]
    return "\n".join(keep[:14])[:3000]


def explore(exe, jobs, cwd, on_result, chunk=40, deadline=None, **kw):
    """Runs every job, calling on_result(job, result) from the calling thread. Returns the number of executions."""
    q = queue.Queue()
    jobs = list(jobs)
    n = max(1, min(chunk, (len(jobs) + NPROC - 1) // NPROC))
    for i in range(0, len(jobs), n):
        q.put(jobs[i:i + n])
    out = queue.Queue()
    stop = threading.Event()

    def work():
        while not stop.is_set():
            try:
                b = q.get_nowait()
            except queue.Empty:
                break
            try:
                out.put((b, run_batch(exe, b, cwd, **kw)))
            except Exception as ex:  # reported to the caller
                out.put((b, ex))
        out.put(None)
    ts = [threading.Thread(target=work, daemon=True) for _ in range(NPROC)]
    for t in ts:
        t.start()
    done = live = 0
    live = len(ts)
    while live:
        r = out.get()
        if r is None:
            live -= 1
            continue
        b, rs = r
        if isinstance(rs, Exception):
            stop.set()
            raise rs
        for j, x in zip(b, rs):
            done += 1
            on_result(j, x)
        if deadline and time.time() > deadline:
            stop.set()
    return done


# ---------------------------------------------------------------- reactions
SF = [94238, 94240, 94242, 94244, 98252, 98254]
NF = [92233, 92234, 92235, 92238, 93237, 94239, 94241]


def compound(zaid, einc):
    z, a = zaid // 1000, zaid % 1000
    return (z, a) if einc == 0.0 else (z, a + 1)


# ---------------------------------------------------------------- reporting
def kill_descendants():
    kids = collections.defaultdict(list)
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                kids[int(open("/proc/%s/stat" % p).read().rsplit(")", 1)[1].split()[1])].append(int(p))
            except (OSError, ValueError, IndexError):
                pass
    todo, mine = [os.getpid()], []
    while todo:
        for k in kids[todo.pop()]:
            mine.append(k)
            todo.append(k)
    for p in mine:
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass


class Check:
    def __init__(self, prop, level, technique_note=""):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.tier = "thorough" if "--thorough" in sys.argv else "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.viol = collections.OrderedDict()
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.notes = []
        self.done = False
        self.known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
                      if k["property"] == prop and k.get("status") == "known"]
        self.known_hit = {}
        self.quick = self.tier == "quick"
        sys.excepthook = self.crashed

    def crashed(self, t, v, tb):
        """an internal error is no answer (exit status 2), unless violations were found before it"""
        sys.__excepthook__(t, v, tb)
        sys.stderr.flush()
        code = 2
        if self.viol:
            try:
                self.cov.setdefault("interrupted", repr(v)[:300])
                self.finish()
            except SystemExit as e:
                code = e.code
        sys.stdout.flush()
        if _scratch:
            shutil.rmtree(_scratch, ignore_errors=True)
        os._exit(code)

    def violation(self, key, msg, replay=None):
        for k in self.known:
            if re.fullmatch(k["key"], key):
                self.known_hit.setdefault(k["key"], (k, msg))
                return
        if not self.viol:
            # what is still to explore gets a limited time: changed code may hang in every execution
            t = threading.Timer(90 if self.quick else 900, self.early)
            t.daemon = True
            t.start()
        if key not in self.viol:
            self.viol[key] = (msg, replay, 1)
        else:
            m, r, n = self.viol[key]
            self.viol[key] = (m, r, n + 1)

    def early(self):
        try:
            if self.done:
                time.sleep(20)
            else:
                self.cov = dict(self.cov, interrupted="stopped after the first violations")
                self.finish()
        except SystemExit:
            pass
        finally:
            kill_descendants()
            if _scratch:
                shutil.rmtree(_scratch, ignore_errors=True)
            os._exit(1)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def finish(self):
        self.done = True
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        lines = []
        for i, (key, (msg, replay, n)) in enumerate(list(self.viol.items())):
            p = os.path.join(ev, "%s.replay%d.json" % (self.prop, i))
            if i < 12:
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "key": key, "message": msg, "occurrences": n, "replay": replay}, f, indent=1, default=str)
            lines.append((key, msg, p, n))
        for k, m in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = dict(self.cov)
        cov["samples"] = self.samples or ["none"]
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
             "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
             "violations": len(lines)}
        tmp = os.path.join(ev, ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(d, f, indent=1, default=str)
        os.rename(tmp, os.path.join(ev, "%s.json" % self.prop))
        print("%s %s: %s in %.1f s; %s" % (self.prop, self.tier, "held" if not lines else "%d distinct violations" % len(lines),
              time.time() - self.t0, {k: v for k, v in self.cov.items() if isinstance(v, (int, float, bool))}))
        for k, m, p, n in lines[:12]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  %s: %s (x%d)" % (k, m, n))
        sys.stdout.flush()
        sys.exit(1 if lines else 0)
