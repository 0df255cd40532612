"""Runs programs in the recorded interpreter and checks the records against spec/Trace.tla with TLC."""
import json, os, re, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 4)
_scratch = None

def scratch():
    global _scratch
    if _scratch is None:
        import atexit
        _scratch = tempfile.mkdtemp(prefix="fpp-verif-")
        os.chmod(_scratch, 0o755)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def esc(b):
    """bytes -> the text form used by the specification"""
    return "".join(chr(c) if 32 <= c < 127 and c != 92 else "\\x%02X" % c for c in b)

class Sc:
    """One run of the interpreter."""
    def __init__(self, id, code=None, name="p.b98", opts=(), args=(), env=None, files=None, inp=b"", vd=3, ticks=300, ms=4000, tag=""):
        self.id, self.vd, self.ticks, self.ms, self.tag = id, vd, ticks, ms, tag
        self.files = dict(files or {})
        if code is not None:
            self.files[name] = code if isinstance(code, bytes) else code.encode("latin-1")
        self.argv = [a if isinstance(a, bytes) else a.encode("latin-1") for a in list(opts) + ([name] if name is not None else []) + list(args)]
        self.env = [b"A=b"] if env is None else env
        self.inp = inp if isinstance(inp, bytes) else inp.encode("latin-1")
        self.record = True
        self.sched = 0
    def batch(self):
        o = ["S " + self.id]
        o += ["A " + a.hex() for a in self.argv]
        o += ["E " + e.hex() for e in self.env]
        for d in sorted(self.files):
            o.append("F %s %s" % (d.encode("latin-1").hex(), self.files[d].hex()))
        o += ["I " + self.inp.hex(), "T %d" % self.ticks, "V %d" % self.vd, "M %d" % self.ms, "R %d" % (1 if self.record else 0), "Z %d" % self.sched, "X"]
        return "\n".join(o) + "\n"
    def meta(self, lib, libdir):
        return {"id": self.id, "args": [esc(a) for a in self.argv], "env": [esc(e) for e in self.env],
                "fs": {esc(n.encode("latin-1")): esc(c) for n, c in self.files.items()}, "inp": esc(self.inp),
                "lib": lib, "libdir": libdir}
    def dump(self):
        return {"id": self.id, "argv": [a.decode("latin-1") for a in self.argv], "env": [e.decode("latin-1") for e in self.env],
                "files": {n: c.decode("latin-1") for n, c in self.files.items()}, "stdin": self.inp.decode("latin-1"),
                "vd": self.vd, "ticks": self.ticks, "ms": self.ms, "tag": self.tag, "sched": self.sched}
    @staticmethod
    def load(d):
        s = Sc(d["id"], name=None, args=d["argv"], env=[e.encode("latin-1") for e in d["env"]],
               files={n: c.encode("latin-1") for n, c in d["files"].items()}, inp=d["stdin"], vd=d["vd"], ticks=d["ticks"], ms=d["ms"], tag=d.get("tag", ""))
        s.sched = d.get("sched", 0)
        return s

def execute(exe, scs, jobs=CORES):
    """runs the scenarios; returns {id: record}"""
    base = tempfile.mkdtemp(dir=scratch()); os.chmod(base, 0o755)
    jobs = max(1, min(jobs, len(scs)))
    chunks = [scs[k::jobs] for k in range(jobs)]
    def one(k):
        b, o = os.path.join(base, "b%d" % k), os.path.join(base, "o%d" % k)
        with open(b, "w") as f:
            for s in chunks[k]:
                f.write(s.batch())
        p = subprocess.run([exe, b, o, os.path.join(base, "s%d" % k)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise RuntimeError("recorder failed: " + p.stderr.decode("latin-1")[-500:])
        r = {}
        with open(o, encoding="latin-1") as f:
            for l in f:
                j = json.loads(l)
                r[j["id"]] = j
        return r
    res = {}
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, range(jobs)):
            res.update(r)
    shutil.rmtree(base, ignore_errors=True)
    return res

def libs(exe):
    d = os.path.realpath(os.path.join(os.path.dirname(exe), "..", "fing"))
    r = {}
    for f in sorted(os.listdir(d)):
        if f.endswith(".fl"):
            r[f[:-3]] = esc(open(os.path.join(d, f), "rb").read())
    return r, d + "/"

class TlcError(Exception):
    pass

def tlc(module, cfg, env=None, workers=CORES, timeout=None, extra=(), heap="6g", consts=None):
    """runs TLC; returns (output, seconds)"""
    md = tempfile.mkdtemp(dir=scratch())
    cls = build.classes()
    cfgp = os.path.join(SPEC, cfg)
    if consts:
        cfgp = os.path.join(md, "c.cfg")
        txt = open(os.path.join(SPEC, cfg)).read()
        for k, v in consts.items():
            txt = re.sub(r"(?m)^(\s*CONSTANTS?\s+)?%s\s*=.*$" % k, lambda m: (m.group(1) or "") + "%s = %s" % (k, v), txt)
        open(cfgp, "w").write(txt)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap, "-cp", cls + ":" + TLAJARS, "tlc2.TLC", "-nowarning",
           "-workers", str(workers), "-metadir", md, "-config", cfgp] + list(extra) + [module]
    e = dict(os.environ); e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode("latin-1"), p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode("latin-1"), -9
    shutil.rmtree(md, ignore_errors=True)
    return out, rc, time.time() - t

def unTla(s):
    """a string as TLC prints it"""
    return s.replace('\\"', '"').replace("\\\\", "\\").replace("\\n", "\n")

def _chunk(group, res, lib, libdir, vd, workers, verdicts, stats, keep):
    """judges one group; a run on which the specification cannot be evaluated gets the verdict ERROR"""
    left = list(group)
    for attempt in range(12):
        f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=scratch(), delete=False, encoding="latin-1")
        for s in left:
            j = s.meta(lib, libdir)
            j.update(res[s.id])
            f.write(json.dumps(j) + "\n")
        f.close()
        out, rc, sec = tlc("Trace", "Trace.cfg", env={"RUNS": f.name}, consts={"VD": vd}, workers=workers, extra=["-noGenerateSpecTE"])
        if keep:
            shutil.copy(f.name, keep)
        os.unlink(f.name)
        for l in out.split("\n"):
            if l.startswith('"@@'):
                kind, js = unTla(l[3:-1]).split(" ", 1)
                try:
                    j = json.loads(js)
                except Exception:
                    raise TlcError("unreadable verdict " + l[:300])
                verdicts[j["id"]] = (kind, j)
        m = re.findall(r"(?m)^(\d+) states generated, (\d+) distinct states found", out)
        if m:
            stats["states"] += int(m[-1][0])
            stats["distinct"] += int(m[-1][1])
        if all(s.id in verdicts for s in left):
            return
        text = "\n".join(x for x in out.split("\n") if not x.startswith('"@@'))
        scn = re.findall(r"(?m)^/\\ sc = (\d+)$", text)
        if not scn:
            raise TlcError("no verdict for %s\n%s" % ([s.id for s in left if s.id not in verdicts][:3], text[-3500:]))
        at = re.findall(r"(?m)^/\\ i = (-?\d+)$", text)
        bad = left[int(scn[-1]) - 1]
        err = re.search(r"Error: (.*?)Error: The behavior up to", text, re.S)
        locs = re.findall(r"Line \d+, column \d+ to line \d+, column \d+ in \w+", text)
        verdicts[bad.id] = ("ERROR", {"id": bad.id, "at": int(at[-1]) if at else 0, "info": {"what": "evaluation", "error": (err.group(1) if err else text[:800])[:800], "where": locs[-4:], "cov": []}})
        left = [s for s in left if s.id not in verdicts]
        if not left:
            return
    for s in left:
        verdicts[s.id] = ("ERROR", {"id": s.id, "at": 0, "info": {"what": "gave up", "cov": []}})

def judge(scs, res, exe, keep=None, procs=2):
    """checks records against the specification; returns ({id: (kind, info)}, stats)"""
    lib, libdir = libs(exe)
    verdicts = {}; stats = {"states": 0, "distinct": 0, "tlc_s": 0.0}
    t = time.time()
    build.classes()
    jobs = []
    vds = sorted({s.vd for s in scs})
    for vd in vds:
        group = [s for s in scs if s.vd == vd and s.id in res]
        n = procs if len(group) > 40 else 1
        for k in range(n):
            jobs.append((group[k::n], vd))
    w = max(1, CORES // max(1, min(procs, len(jobs))))
    with ThreadPoolExecutor(procs) as ex:
        for f in [ex.submit(_chunk, g, res, lib, libdir, vd, w, verdicts, stats, keep) for g, vd in jobs if g]:
            f.result()
    stats["tlc_s"] = time.time() - t
    return verdicts, stats
