"""What the check of each property consists of."""
import json, os, random, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, every, gen, vecgen, vlib

# ---------------------------------------------------------------------------
# conformance: programs of these families, run by the real interpreter, must be behaviours of the specification
FAMS = {
    "C01": dict(stack=110, soup98=25, soup93=20),
    "C02": dict(arith=90, arith93=60, soup93=15),
    "C03": dict(wrap=100, soup1=15, soup3=15, bounds=20, semi=15),
    "C04": dict(torus=130, soup93=20),
    "C05": dict(flow=60, k=60, semi=25, rnd=10, soup3=15, soup1=15),
    "C06": dict(gp=70, gp93=30, bounds=50),
    "C07": dict(blocks=120, soup98=20),
    "C08": dict(strings=150),
    "C09": dict(conc=120),
    "C10": dict(ends=100, conc=25, fish_errors=10, lib=5),
    "C11": dict(unknown=80, fails=60, soup1=10, soup3=10, soup93=10),
    "C12": dict(sysinfo=130),
    "C13": dict(fploading=80, fing=40, soup_FING=15, fp_FING=15, multi=20, lib=8),
    "C14": dict(modes=60, modes_line=60, fp_MODE=15, soup_MODE=20),
    "C15": dict(text=80, beq=40, fl=20, fmv=30),
    "C16": dict(file_in=60, file_out=60, file_round=40),
    "C17": dict(options=80, caps=80),
    "C18": dict(fish=50, fish_line=80, fish_errors=30),
    "C19": dict(star=35, star_line=50, star_call=25, star_file=25, star_dive=30),
    "C20": dict(fp_FRTH=20, fp_BOOL=12, fp_BITW=15, fp_FIXP=20, fp_CPLI=15, fp_BASE=25, fp_REFC=12, lib=12,
                soup_FRTH=8, soup_FIXP=8, soup_BASE=6, soup_REFC=6, soup_CPLI=4, soup_BITW=4, soup_BOOL=4),
    "C21": dict(fp_STRN=70, soup_STRN=15, fp_FPRT=40, fp_ORTH=25),
    "C22": dict(fp_TOYS=50, fp_ORTH=25, fp_JSTR=20, fp_SUBR=20, fp_NFUN=20, fp_FISH=20, soup_TOYS=10, soup_NFUN=5, soup_FISH=10, soup_JSTR=5, soup_SUBR=5, soup_ORTH=5),
    "C23": dict(iipc=50, iipc_dorm=30, fp_IIPC=20, soup_IIPC=15),
    "C24": dict(debug=40, debug_points=40, debug_dbug=30, debug_multi=30),
    "C26": dict(mvrs=50, mvrs_travel=30, fp_MVRS=30, fmv=20),
    "C28": dict(lib=110),
    "C30": dict(timer=60, fp_HRTI=20, soup_HRTI=10, perl=45, fp_PERL=15, dirs=60, fp_DIRF=20),
}
# every program of a small language (tools/every.py): all of them in a thorough check, a seeded share of them in a quick one
EVERY = {
    "C01": "stack stack93", "C02": "arith input bigarith", "C03": "delta dim", "C04": "torus", "C05": "turn k big", "C06": "space dim", "C07": "block",
    "C08": "string", "C09": "conc", "C10": "conc ending", "C11": "cell input dim", "C12": "y", "C13": "load fing", "C14": "mode",
    "C15": "text beq fl fmv", "C16": "in out", "C17": "option cap", "C18": "fish fishcell fishpath fishnum", "C19": "star call file dive hook",
    "C20": "value frth refc base", "C21": "str format orth", "C22": "toys sub orth", "C23": "iipc", "C24": "command dbug", "C26": "mvrs fmv",
    "C28": "lib", "C30": "timer dir cap",
}
EVERY = {p: ["every_" + f for f in fs.split() if "every_" + f in every.EVERY] for p, fs in EVERY.items()}
# with AddressSanitizer and checked library containers: a fault of any kind is an end the specification does not have
ASAN = {
    "C29": {f: 8 for f in gen.FAMILIES},
}
# under a deterministic thread scheduler (harness/sched.cpp): families, how many programs, with how many schedules each;
# half of the runs have native threads
SCHED = {
    "C25": dict(life=130, conc=25, ends=25, mvrs_travel=25, fmv=20, iipc=20, iipc_dorm=15, lib=8),
    "C23": dict(iipc=25, iipc_dorm=25),
    "C26": dict(life=30, mvrs_travel=30),
    "C10": dict(ends=30, life=20),
}

def sig(kind, j):
    i = j["info"]
    return "%s|%s" % (i.get("what"), ",".join(sorted(i.get("differs", []))) if kind == "BAD" else kind)

def conformance(rep, fams, seed, scale=1.0, kind="tick"):
    exe = build.build(kind)
    scs = []
    for f, n in fams.items():
        scs += gen.make(f, max(1, int(n * scale)), seed)
    if kind == "asan":
        for s in scs:
            s.ms = 12000
    check_runs(rep, exe, scs, ("sanitized " if kind == "asan" else "conformance ") + " ".join("%s:%d" % (f, max(1, int(n * scale))) for f, n in fams.items()))

# what the specification itself is checked for: Laws.tla, by property, and the programs of Programs.tla
LAWS = ["C%02d" % k for k in (1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 30)]
# property: (suite, longest program, most turns, dimensions), for the quick check and for the thorough one
PROGRAMS = {
    "C09": ([("queue", 4, 12, 2), ("grid", 2, 10, 2)], [("queue", 5, 14, 2), ("grid", 3, 14, 2), ("native", 3, 7, 2)]),
    "C10": ([("queue", 3, 12, 2), ("native", 2, 8, 2)], [("queue", 5, 12, 2), ("native", 3, 9, 2)]),
    "C23": ([("iipc", 3, 12, 2)], [("iipc", 4, 14, 2)]),
    "C24": ([("debug", 2, 8, 2)], [("debug", 3, 12, 2)]),
    "C25": ([("native", 2, 7, 2)], [("native", 3, 9, 2)]),
    "C26": ([("multi", 2, 8, 3)], [("multi", 2, 13, 3)]),
    "C28": ([("lib", 1, 12, 3)], [("lib", 2, 12, 3)]),
    "C29": ([("grid", 2, 10, 2)], [("grid", 3, 16, 2)]),
}

QUOTA = 2800
def exhaustive(rep, fams, seed, quota):
    """enumerated programs; a family that is not taken whole is sampled"""
    exe = build.build("tick")
    left, got = quota, []
    for n, f in sorted((gen.size(f), f) for f in fams):
        got.append((f, n, n if quota is None else min(n, left // (len(fams) - len(got)))))
        if quota is not None:
            left -= got[-1][2]
    for f, n, take in got:
        scs = gen.make(f, take, seed)
        for k in range(0, len(scs), 4000):
            check_runs(rep, exe, scs[k:k + 4000], "%s %s:%d of %d" % ("all programs" if take == n else "share of all programs", f, len(scs[k:k + 4000]), n))
            if rep.violations:
                return

def schedules(rep, fams, seed, each, scale=1.0):
    exe = build.build("sched")
    scs = []
    for f, n in fams.items():
        for s in gen.make(f, max(1, int(n * scale)), "%s/sched" % seed):
            r = random.Random("%s/%s" % (seed, s.id))
            for k in range(each):
                a = vlib.Sc.load(s.dump())
                a.id, a.sched, a.ms = "%s-z%d" % (s.id, k), r.randint(1, 1 << 40), 20000
                if k % 2:
                    a.argv = [b"-fthreads=native"] + a.argv
                scs.append(a)
    rep.cov["schedules"] += len(scs)
    check_runs(rep, exe, scs, "schedules " + " ".join("%s:%d" % (f, max(1, int(n * scale))) for f, n in fams.items()) + " x%d" % each)

def model(rep, module, cfg, consts, name, timeout=600):
    """TLC explores a model exhaustively"""
    out, rc, sec = vlib.tlc(module, cfg, consts=consts, timeout=timeout)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, (\d+) states left", out)
    if rc != 0 or "No error has been found" not in out or not m:
        if rc == -9:
            rep.parts.append({"part": name, "note": "not finished within %d s" % timeout})
            return
        raise vlib.TlcError("%s: TLC status %s\n%s" % (name, rc, out[-3000:]))
    n = [int(x.replace(",", "")) for x in m[-1]]
    rep.cov["states"] += n[1]
    rep.cov["transitions"] += n[0]
    rep.parts.append({"part": name, "distinct_states": n[1], "constants": {k: str(v) for k, v in consts.items()}, "exhaustive": True, "wall_s": round(sec, 1)})

def vectors(rep, seqs, name):
    """operation sequences on the real Vector and VectorRange classes, checked against VectorsTrace.tla"""
    t0 = time.time()
    exe = build.build("vectors")
    verdicts = drive(exe, seqs)
    for s in seqs:
        kind, j = verdicts[s.id]
        rep.reached |= set(j["info"].get("cov", []))
        if kind == "OK":
            rep.cov["traces_validated_against_impl"] += 1
            rep.cov["operations_validated"] += j["info"]["turns"]
            continue
        info = {x: y for x, y in j["info"].items() if x != "cov"}
        op = s.ops[j["at"] - 1] if 0 < j["at"] <= len(s.ops) else "end"
        rep.violation("vector|" + str(info.get("what")), {"kind": "vectors", "ops": s.ops, "at": j["at"], "info": info},
                      "operation %d (%s): %s" % (j["at"], op, json.dumps(info)[:900]))
    rep.samples.append({"operations": seqs[0].ops[:12]})
    rep.parts.append({"part": name, "sequences": len(seqs), "operations": sum(len(s.ops) for s in seqs), "wall_s": round(time.time() - t0, 1)})

def drive(exe, seqs):
    d = vlib.scratch()
    ops, out = os.path.join(d, "ops"), os.path.join(d, "ops.json")
    open(ops, "w").write("".join(s.text() for s in seqs))
    p = subprocess.run([exe, ops, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise RuntimeError("driver failed: " + p.stdout.decode("latin-1")[-500:])
    o, rc, sec = vlib.tlc("VectorsTrace", "VectorsTrace.cfg", env={"RUNS": out}, extra=["-noGenerateSpecTE"])
    v = {}
    for l in o.split("\n"):
        if l.startswith('"@@'):
            kind, js = vlib.unTla(l[3:-1]).split(" ", 1)
            j = json.loads(js)
            v[j["id"]] = (kind, j)
    missing = [s.id for s in seqs if s.id not in v]
    if missing:
        raise vlib.TlcError("no verdict for %s\n%s" % (missing[:3], "\n".join(x for x in o.split("\n") if not x.startswith('"@@'))[-3000:]))
    return v

def check_runs(rep, exe, scs, name):
    t0 = time.time()
    res = vlib.execute(exe, scs)
    verdicts, st = vlib.judge(scs, res, exe)
    ok = silent = turns = 0
    suspects = []
    for s in scs:
        kind, j = verdicts[s.id]
        rep.reached |= set(j["info"].get("cov", []))
        if kind == "OK":
            ok += 1
            turns += j["info"].get("turns", 0)
        elif kind == "SILENT":
            silent += 1
        else:
            suspects.append(s)
    rep.cov["states"] += st["distinct"]
    rep.cov["transitions"] += st["states"]
    rep.cov["traces_validated_against_impl"] += ok
    rep.cov["traces_beyond_specification"] += silent
    rep.cov["turns_validated"] += turns
    for s in scs[:2]:
        rep.samples.append({"run": s.dump(), "verdict": verdicts[s.id][0]})
    # a disagreement counts if it shows again
    confirmed = 0
    for s in suspects[:12]:
        if confirmed >= 3:
            break
        for k in range(3):
            a = vlib.Sc.load(s.dump())
            a.ms = max(a.ms, 5000) * 3
            r = vlib.execute(exe, [a])
            v, _ = vlib.judge([a], r, exe)
            kind, j = v[a.id]
            if j["info"].get("what") == "hang":   # no progress, rather than a slow recording
                a.ms *= 3
                if len(vlib.execute(exe, [a])[a.id]["ev"]) != len(r[a.id]["ev"]):
                    continue
            if kind in ("BAD", "ERROR"):
                confirmed += 1
                info = {x: y for x, y in j["info"].items() if x != "cov"}
                rep.violation(sig(kind, j), {"kind": "run", "scenario": s.dump(), "verdict": kind, "at": j["at"], "info": info},
                              "run %s %s files %s: turn %s, %s" % (s.id, [x.decode("latin-1") for x in s.argv],
                              {n: c.decode("latin-1") for n, c in s.files.items() if len(c) < 300}, j["at"], json.dumps(info)[:900]))
                break
    rep.parts.append({"part": name, "runs": len(scs), "agreed": ok, "beyond": silent, "unconfirmed": len(suspects) - confirmed if confirmed == 0 else 0, "wall_s": round(time.time() - t0, 1)})

# ---------------------------------------------------------------------------
def run(prop, tier, seed, rep):
    rep.assume += ["the recorder in harness/hook.cpp reports pointers, stacks, spaces and output faithfully",
                   "the TLC operator overrides (64-bit words, IEEE arithmetic, number formatting) compute what their TLA+ definitions say"]
    quick = tier == "quick"
    T0 = time.time()
    if prop == "C25":
        model(rep, "Lifecycle", "Lifecycle.cfg", {"Native": "FALSE", "MaxWork": 3 if quick else 4}, "life cycle, cooperative threads")
        model(rep, "Lifecycle", "Lifecycle.cfg", {"Native": "TRUE", "MaxWork": 1 if quick else 2}, "life cycle, native threads")
    if prop == "C27":
        laws = {"VD": 2, "Dom": '{"-1","0","1","2"}'} if quick else {"VD": 3, "Dom": '{"-1","0","1"}'}
        model(rep, "VectorsLaws", "VectorsLaws.cfg", laws, "laws of the algebra")
        ops = ["cmp", "plus", "minus", "addto", "subfrom", "range", "put"]
        vectors(rep, vecgen.every(2, (-2, -1, 0, 1, 2) if quick else (-4, -3, -2, -1, 0, 1, 2, 3, 4), "all2", ops)
                + vecgen.every(3, (-1, 0, 1) if quick else (-2, -1, 0, 1, 2), "all3", ops), "all pairs of small vectors")
        for k in range(1 if quick else 20):
            vectors(rep, vecgen.rand("%s/%d" % (seed, k), 600 if quick else 2000), "random sequences")
            if rep.violations or time.time() - T0 > 480:
                break
    if prop in LAWS:
        model(rep, "Laws", "Laws.cfg", {"Law": '"%s"' % prop}, "laws of the property, on the specification")
    for suite, n, turns, vd in PROGRAMS.get(prop, ([], []))[0 if quick else 1]:
        model(rep, "Programs", "Programs.cfg", {"Suite": '"%s"' % suite, "MaxLen": n, "Turns": turns, "VD": vd}, "all %s programs, in every order of turns" % suite)
    if prop in EVERY:
        exhaustive(rep, EVERY[prop], seed, QUOTA if quick else None)
    t0 = time.time()
    for k in range(1 if quick else 8):
        sd = seed if quick else "%d/t%d" % (seed, k)
        if prop in FAMS:
            conformance(rep, FAMS[prop], sd, scale=3.0 if quick else 6.0)
        if prop in ASAN:
            conformance(rep, ASAN[prop], sd, scale=2.0 if quick else 6.0, kind="asan")
        if prop in SCHED:
            schedules(rep, SCHED[prop], sd, 4 if quick else 12)
        if rep.violations or time.time() - t0 > 480:
            break
    return "model_checking"

TRACE = "TLA+ specification checked with TLC: recorded runs of the real interpreter validated as behaviours of the specification"
NOTE = ("TLC first checks the specification itself: the property's laws on every case of a bounded set (Laws.tla) or on every run of every small program "
        "in every order of turns (Programs.tla). Then programs run: all (or a seeded share) of the programs of small enumerated languages, and seeded random ones. Each runs in the interpreter built from /repo with a link-time recorder; TLC follows every recorded turn "
        "in the specification and compares pointer, stacks, space, bounds, modes, output, files and exit. Bounded by the programs enumerated and generated.")
CLAIMED = {p: (TRACE, NOTE) for p in FAMS}
CLAIMED["C29"] = (TRACE, "Programs of every family run in the interpreter built with AddressSanitizer, undefined-behaviour checks and assertions in the library's containers; "
    "TLC follows each recorded turn: the run has to continue and end as the specification says, so a fault, a fatal exception or an endless instruction is a violation.")
CLAIMED["C25"] = ("TLA+ specification checked with TLC: exhaustive model of the threads, and runs of the real interpreter under a controlled thread scheduler validated as behaviours of the specification",
    "Lifecycle.tla explores every interleaving of universe, pointer and main threads for 2 universes and 3 pointers (no early exit, no pointer in two threads, no deadlock, termination). "
    "The real interpreter runs on a deterministic scheduler that replaces the pthread primitives (seeded schedules, cooperative and native threads); TLC checks each run against the specification, including that it ended neither early nor never.")
CLAIMED["C27"] = ("TLA+ specification checked with TLC: laws of the vector algebra explored exhaustively, and operations on the real classes validated as behaviours of the specification",
    "VectorsLaws.tla checks the algebra (group, order, turning, text form, ranges) for every triple of small vectors. A driver compiled with /repo's classes performs all operations on all pairs of small "
    "2- and 3-dimensional vectors and random sequences with up to 6 dimensions and 64-bit components; TLC compares every register and result.")
NOT = {}
