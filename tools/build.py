"""Builds the instrumented interpreter from /repo's working tree into /verif/build/<hash>/."""
import os, sys, hashlib, subprocess, shutil, re
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

WRAPS = ["_ZN5Funge11FungeRunner4tickEv", "_ZNK5Funge13FungeUniverse4waitEv", "time"]

class BuildError(Exception):
    pass

def sources():
    src = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith((".cpp", ".h")):
                src.append(os.path.join(d, f))
    return sorted(src)

def tree_hash(extra=()):
    h = hashlib.sha256()
    for f in sources() + list(extra):
        h.update(f.encode()); h.update(b"\0")
        h.update(open(f, "rb").read()); h.update(b"\0")
    fing = os.path.join(REPO, "fing")
    for f in sorted(os.listdir(fing)):
        h.update(f.encode()); h.update(open(os.path.join(fing, f), "rb").read())
    return h.hexdigest()[:20]

def compile_wrapped(cmd, src, obj):
    """--wrap leaves calls within the translation unit that defines the function alone: they are redirected here"""
    asm = obj[:-2] + ".s"
    run(cmd + ["-S", src, "-o", asm])
    text = open(asm).read()
    for w in WRAPS:
        text = re.sub(r"(?m)^(\s*(?:call|jmp)\s+)%s\b" % re.escape(w), lambda m: m.group(1) + "__wrap_" + w, text)
    open(asm, "w").write(text)
    run(["g++", "-c", asm, "-o", obj])
    os.unlink(asm)

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])

def build(kind="tick", jobs=8):
    """kind: tick (recorder), asan (recorder with AddressSanitizer), sched (recorder on the deterministic thread
    scheduler), or the name of another driver in harness/."""
    hooks = {"tick": "hook.cpp", "asan": "hook.cpp", "sched": "hook.cpp"}
    hook = os.path.join(VERIF, "harness", hooks.get(kind, kind + ".cpp"))
    sched = os.path.join(VERIF, "harness", "sched.cpp")
    key = tree_hash([hook, sched, os.path.abspath(__file__)])
    out = os.path.join(BUILD, kind + "-" + key)
    exe = os.path.join(out, "bin", "funget")
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for old in os.listdir(BUILD):      # one build per kind: an outdated one is of no use
        if old.startswith(kind + "-"):
            shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    tmp = out + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(tmp, "bin")); os.makedirs(os.path.join(tmp, "obj"))
    incs = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        if os.path.basename(d) == "include":
            incs.append("-I" + d)
    big = os.path.join(REPO, "third_party/bigint/src/bigint.cpp")
    have_big = os.path.exists(big)
    incs += ["-I" + os.path.join(REPO, "third_party/bigint/include")]
    flags = ["-std=c++2a", "-pthread", "-w"] + incs
    if kind == "asan":
        flags += ["-fsanitize=address,bounds,null,return,unreachable,vptr", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-O1", "-g1", "-DFUNGET_ASAN"]
    if kind == "sched":
        flags += ["-DFUNGET_SCHED"]
    jobsl = []
    for f in sources():
        if not f.endswith(".cpp"):
            continue
        base = os.path.relpath(f, REPO).replace("/", "_")[:-4]
        extra = []
        if os.path.basename(f) == "Funge.cpp":
            extra = ["-Dmain=funge_main"]
        elif kind == "sched" and os.path.basename(f).startswith("Funge"):
            extra = ["-fsanitize=thread"]    # memory accesses call sched.cpp
        if not have_big:
            if os.path.basename(f) == "FingerprintLONG.cpp":
                continue
            if os.path.basename(f) == "FingerprintStrategy.cpp":
                g = os.path.join(tmp, "FingerprintStrategy.cpp")
                lines = open(f, encoding="latin-1").read().split("\n")
                open(g, "w", encoding="latin-1").write("\n".join("" if "FingerprintLONG" in l else l for l in lines))
                f = g
        obj = os.path.join(tmp, "obj", base + ".o")
        if kind in hooks and os.path.basename(f).startswith("FungeRunner"):
            jobsl.append((["g++"] + flags + extra, f, obj))
        else:
            jobsl.append(["g++"] + flags + extra + ["-c", f, "-o", obj])
    if have_big:
        jobsl.append(["g++"] + flags + ["-c", big, "-o", os.path.join(tmp, "obj", "bigint.o")])
    jobsl.append(["g++"] + flags + ["-c", hook, "-o", os.path.join(tmp, "obj", "hook.o")])
    if kind == "sched":
        jobsl.append(["g++"] + flags + ["-O1", "-fno-threadsafe-statics", "-c", sched, "-o", os.path.join(tmp, "obj", "sched.o")])
    with ThreadPoolExecutor(jobs) as ex:
        for _ in ex.map(lambda j: run(j) if isinstance(j, list) else compile_wrapped(*j), jobsl):
            pass
    wraps = ["-Wl,--wrap=" + w for w in WRAPS]
    if kind not in hooks:
        wraps = []
    objs = [os.path.join(tmp, "obj", o) for o in sorted(os.listdir(os.path.join(tmp, "obj")))]
    run(["g++", "-pthread"] + (["-fsanitize=address,bounds,null,return,unreachable,vptr"] if kind == "asan" else []) + wraps + ["-o", os.path.join(tmp, "bin", "funget")] + objs)
    shutil.copytree(os.path.join(REPO, "fing"), os.path.join(tmp, "fing"))
    shutil.rmtree(os.path.join(tmp, "obj"))
    os.rename(tmp, out)
    return exe

def classes():
    """Compiles the TLC operator overrides; returns the class directory."""
    spec = os.path.join(VERIF, "spec")
    srcs = [os.path.join(spec, f) for f in sorted(os.listdir(spec)) if f.endswith(".java")]
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()[:16]
    out = os.path.join(BUILD, "cls-" + h)
    if not os.path.isdir(out):
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        run(["javac", "-nowarn", "-d", tmp, "-cp", "/opt/veriftools/tla/tla2tools.jar"] + srcs)
        os.rename(tmp, out)
    return out

if __name__ == "__main__":
    import time
    t = time.time()
    for k in sys.argv[1:] or ["tick"]:
        print(build(k), "%.1fs" % (time.time() - t))
    print(classes(), "%.1fs" % (time.time() - t))
