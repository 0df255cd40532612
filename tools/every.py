"""Families that list every short program of some alphabet, rather than drawing them.
Each is a function giving the whole list of programs (as functions of an identifier); gen.make takes all of it or a
seeded sample."""
import itertools
from vlib import Sc

def words(tokens, least, most):
    for k in range(least, most + 1):
        yield from itertools.product(tokens, repeat=k)
def prog(code, opts=("-std=be98",), **kw):
    return lambda n: Sc(n, code, opts=list(opts), **dict(dict(ticks=60, vd=3), **kw))
def chunks(l, k):
    l = list(l)
    return [l[j:j + k] for j in range(0, len(l), k)]

def stack(g):
    """all sequences of stack instructions; n in between empties the stack"""
    return [prog("n".join("".join(w) for w in c) + "@", ticks=2000) for c in chunks(words("12$:\\", 1, 5), 60)] \
         + [prog("n".join("".join(w) for w in c) + "@", ticks=2000) for c in chunks(words(["1", "2", "$", ":", "\\", "+", "-", "`", "!"], 1, 4), 60)]
def stack93(g):
    return [prog("".join(w)[:40] + "\n" * 0, opts=["-std=be93"], ticks=12) for w in words("1$:\\.+", 1, 4)]
def arith(g):
    """all pairs of edge values"""
    vs = [0, 1, -1, 2, -2, 3, 10, 127, 128, -128, 255, 256, 65535, (1 << 31) - 1, 1 << 31, -(1 << 31), (1 << 32) - 1, 1 << 32, (1 << 62), (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1]
    ops = [g.num(a) + g.num(b) + o + "n" for a in vs for b in vs for o in "+-*/%`"] + [g.num(a) + o for a in vs for o in ("!n", ".", ",")]
    return [prog("".join(c) + "@", ticks=3000) for c in chunks(ops, 40)]
def deltas(g):
    """every small delta out of a few fields"""
    out = []
    fields = ["z z\n  z", "z", "zz\nzz\nzz\nzz\nzz", "  z   z\n\nz", "z     zz z\n z\n   z   z\nz"]
    for f in fields:
        for dx in range(-4, 5):
            for dy in range(-4, 5):
                if dx or dy:
                    code = g.vec([dx, dy]) + "x"
                    out.append(prog(code + "\n" + f, ticks=40))
                    out.append(prog("'z" + g.vec([-3, -2]) + "p" + code + "\n" + f, ticks=45))
    for dx in range(-9, 10):
        for body in ("", "z", "  z z", "zz   z"):
            if dx:
                out.append(prog(g.num(dx) + "x" + body, opts=["-std=une98"], ticks=30))
    for d in itertools.product((-1, 0, 1, 2), repeat=3):
        if any(d):
            out.append(prog(g.vec(d) + "x\nz z\n\f z\n\fz\n\n  z", opts=["-std=tre98"], ticks=40))
    return out
def torus(g):
    out = []
    for d in itertools.product((-3, -2, -1, 0, 1, 2, 3), (-2, -1, 0, 1, 2)):
        if any(d):
            for w, h in ((4, 1), (80, 25), (82, 27)):
                out.append(prog("\n".join([(g.vec(d) + "x").ljust(w, "z")] + ["z" * w] * (h - 1)), opts=["-std=be98", "-ftopo=torus"], ticks=110))
    for d in "<>^v":
        for col in (0, 1, 40, 79, 80, 81):
            for row in (0, 12, 24, 25):
                out.append(prog(">" + " " * (col - 1) + d + "\n" if row == 0 and col else "v\n" + " \n" * (row - 1) + ">".ljust(col) + d if row else d, opts=["-std=be93"], ticks=12))
    return out
def turns(g):
    """every control flow instruction with every small delta and operands"""
    out = []
    for c in "><^v[]rx_|#wjhlm?k;":
        for dx in (-2, -1, 0, 1, 2):
            for dy in (-1, 0, 1):
                for ops in ("", "1", "01-", "12", "21", "3501-"):
                    if (dx, dy) != (0, 0):
                        code = ops + g.vec([dx, dy]) + "x"
                        out.append(prog("\n".join([code + c * 3] + [c * (len(code) + 3)] * 4), ticks=len(code) + 8))
        for d in itertools.product((-1, 0, 1), repeat=3):
            if any(d):
                code = "12" + g.vec(d) + "x"
                page = "\n".join([c * (len(code) + 3)] * 3)
                out.append(prog(code + c * 3 + "\n" + page + "\n\f" + page + "\n\f" + page, opts=["-std=tre98"] + (["-finvert-hl"] if d[0] < 0 else []), ticks=len(code) + 8))
        for dx in (-2, -1, 1, 2):
            code = "12" + g.num(dx) + "x"
            out.append(prog(code + c * 7, opts=["-std=une98"], ticks=len(code) + 8))
    return out
def iterate(g):
    """k before every instruction, in every direction"""
    out = []
    for c in [chr(x) for x in range(33, 127) if chr(x) not in "=io"]:
        for k in ("0", "1", "2", "01-", "3"):
            for d in "><v":
                code = "312" + k + "k" + c + "z5.@"
                text = {">": code, "<": "<" + code[::-1], "v": "v\n" + "\n".join(code)}[d]
                out.append(prog(text, ticks=40, inp="7 x\n"))
    return out
def cells(g):
    """every cell value under every standard"""
    out = []
    for opt in (["-std=une93"], ["-std=be93"], ["-std=une98"], ["-std=be98"], ["-std=tre98"]):
        for c in list(range(0, 256)):
            if chr(c) in "=io\n\r\f" or c == 11:
                continue
            out.append(prog("321" + chr(c) + "z5", opts=opt, ticks=14, inp="7 x\n"))
    for dim, opt in ((1, "-std=une98"), (2, "-std=be98"), (3, "-std=tre98")):
        for v in (-1, -49, 256 + 49, 300, 512 + 43, 1 << 31, (1 << 32) + 49, -(1 << 63) + 64, (1 << 63) - 1, -128, 128, 1000000):
            at = [60, 0, 0][:dim]
            out.append(prog((g.num(v) + g.vec(at) + "p12").ljust(60) + " z5", opts=[opt], ticks=60))
            out.append(prog((g.num(v) + g.vec(at) + "p122k").ljust(60) + " z5", opts=[opt], ticks=60))
    return out
def fishcells(g):
    out = []
    for ext in ("fish", "sf"):
        for c in range(0, 256):
            if c in (10, 13, 12, 11):
                continue
            for pre in ("", "1", "21", "4321"):
                if c < 32 or c > 126 and pre not in ("", "21"):
                    continue
                out.append(prog(pre + chr(c) + "5n;", opts=[], name="p." + ext, ticks=14, inp="7x"))
    return out
def space(g):
    """stores and erasures around the bounds"""
    pts = [(x, y) for x in (-2, 1, 40) for y in (-1, 0, 3)]
    st = [g.num(v) + g.vec(p) + "p" for p in pts for v in (122, 32)]
    out = [prog("".join(w) + "@", ticks=120) for w in words(st, 1, 2)]
    return out + [prog("".join(w) + "@", ticks=160) for w in words([g.num(v) + g.vec(p) + "p" for p in ((-2, 0), (70, 0), (70, 2), (0, -1)) for v in (122, 32)], 3, 3)]
def blocks(g):
    t = ["0{", "1{", "2{", "01-{", "3{", "0}", "1}", "2}", "01-}", "1u", "2u", "01-u", "5", "78"]
    return [prog("123" + "".join(w) + "z@", ticks=50) for w in words(t, 1, 3)]
def modes(g):
    t = list("HIQS") + [":", "\\", "$", "2{", "1}", "1u", "5", "]", "[", "+", "`", "01-{"]
    return [prog("12" + "".join(w) + ("3:-" if len(w) < 3 else "") + "z@", opts=["-std=be98", "-lMODE"], ticks=40) for w in words(t, 1, 3) if set(w) & set("HIQS")] \
         + [prog("12" + "".join(m) + c + "4:\\z@\n" + "z" * 12 + "\n" + ">" * 12, opts=["-std=be98", "-lMODE"], ticks=30)
            for m in words("HIQS", 1, 3) for c in "><^v[]_|wxr?{}()u"]
def strings(g):
    out = []
    for style in ("multispace", "sgml", "c"):
        for w in words([" ", "a", "\\", '"', "\t"], 0, 4):
            out.append(prog('"' + "".join(w) + '"@', opts=["-std=be98", "-fstrings=" + style], ticks=40))
        for w in words([" ", "a", "\\", '"', "n"], 0, 3):
            out.append(prog("".join(w) + '"@' + "".join(w)[:1] + '"', opts=["-std=be98", "-fstrings=" + style], ticks=40))
            out.append(prog("<@\"" + "".join(w) + '"', opts=["-std=be98", "-fstrings=" + style], ticks=40))
        for c in "0abtnvfrexq9\"\\ ":
            out.append(prog('"\\' + c + '"' + ('"' if c == '"' else "") + "@", opts=["-std=be98", "-fstrings=" + style], ticks=20))
    for std in ("be98", "be93", "une98", "une93", "tre98"):
        for w in words([" ", "a", "\\"], 0, 3):
            out.append(prog('"' + "".join(w) + '"' + ("@" if "93" not in std else ""), opts=["-std=" + std], ticks=20))
    return out
def texts(g):
    out = []
    for w in words(["a", " ", "\n", "\r", "\f"], 0, 4):
        for opt in ([], ["-std=be98"], ["-std=une98"], ["-std=tre98"]):
            out.append(prog("".join(w), opts=opt, ticks=2, ms=800))
    for w in words(["a", " ", "\n", "\r", "\f", "\v"], 1, 4):
        if "\v" in w:
            out.append(prog("".join(w), opts=[], ticks=2, vd=4, ms=800))
    return out
def conc(g):
    return [prog("".join(w), ticks=24) for w in words(list("t@1#<z"), 2, 4) if "t" in w] \
         + [prog("#v" + "".join(w) + "\n >" + "".join(w)[::-1], ticks=24) for w in words(list("t@1q."), 2, 4) if "t" in w]
def info(g):
    out = []
    for dim, opt in ((1, "-std=une98"), (2, "-std=be98"), (3, "-std=tre98")):
        for pre in ("", "12{34", "0{1{t"):
            for k in list(range(0, 44)) + [60, 90]:
                out.append(prog("7" + pre + g.num(k) + "y@", opts=[opt], args=["x", "ab"], env=[b"A=b", b"PATH=/bin"], ticks=30))
        for o in ("-fno-concurrent", "-fno-execute", "-fno-filesystem", "-fcells=char", "-fcells=int"):
            for k in (1, 2, 3, 4, 5):
                out.append(prog(g.num(k) + "y.@", opts=[opt, o], ticks=30))
    return out
def loads(g):
    t = [g.fpload("BITW"), g.fpload("BOOL"), g.fpload("BITW")[:-1] + ")", g.fpload("BOOL")[:-1] + ")", "35A", "5N", "3L"]
    return [prog("".join(w) + "z@", ticks=70) for w in words(t, 1, 4)]
def fings(g):
    t = [a + b + "X" for a in ("'A", "'N") for b in ("'L", "'N", "'Q")] + [a + b + "Z" for a in ("'A", "'Q") for b in ("'N", "'A")] + ["'AY", "'QY", "35A", "5N", "4Q", "53L", "r" * 0 + "t"]
    return [prog("".join(w) + "z@", opts=["-std=be98", "-lBITW", "-lBOOL", "-lFING"], ticks=60) for w in words(t, 1, 3)]
def options(g):
    ops = ["-std=" + s for s in ("be93", "une93", "be98", "une98", "tre98", "fish", "starfish", "xx", "be99", "98", "")] \
        + ["-fconcurrent", "-fno-concurrent", "-fexecute", "-fno-execute", "-ffilesystem", "-fno-filesystem", "-finvert-hl", "-fno-invert-hl", "-ffingerprint", "-fno-fingerprint",
           "-ftopo=torus", "-ftopo=lahey", "-ftopo=x", "-fstrings=c", "-fstrings=sgml", "-fstrings=multispace", "-fstrings=", "-fcells=char", "-fcells=int", "-fcells=64",
           "-lROMA", "-lBITW", "-l", "-lNOPE", "-x", "-", "--", "-f", "-fno-x", "-fthreads=x", "-d", "-fno-topo", "-s", "-std"]
    code = '"a  \\nb"t"ABC"4("SYOT"4(35A'
    return [prog(code, opts=list(w), ticks=40) for w in words(ops, 0, 2)]
def caps(g):
    out = []
    use = ['0"3 tixe"=.', "t1.", g.strz("f") and g.vec([0, 2]) + "0" + g.strz("f") + "i", g.vec([2, 1]) + g.vec([0, 0]) + "0" + g.strz("o") + "o"]
    for no in itertools.product((0, 1), repeat=3):
        for u in use:
            for ext in ("", "PERL"):
                o = ["-std=be98"] + [("-fno-" if x else "-f") + y for x, y in zip(no, ("concurrent", "execute", "filesystem"))] + (["-lPERL"] if ext else [])
                out.append(prog(u + "z@", opts=o, files={"f": b"xy\n"}, ticks=60))
                if ext:
                    for c in ("S", "0\"2+4\"E", "0\"71\"I", "0\"71\"E"):
                        out.append(prog(c + "z@", opts=o, files={"f": b"xy\n"}, ticks=60))
    return out
def fish(g, star=False):
    ops = [c for c in "0f><^v/\\|_#x!?.+-*,%=()'\"{}$:~@r[]l&nogpi;z "] + (list("hmsuOCRDIFS`") if star else [])
    ext = "p.sf" if star else "p.fish"
    inp = "7x"
    out = []
    for w in itertools.product(ops, repeat=2):
        for pre in ("", "321", "2"):
            if "x" in w and "S" in w or "S" in w and star and w.count("S") > 1:
                continue
            out.append(prog(pre + "".join(w) + "n;", opts=[], name=ext, ticks=20, inp=inp))
    return out
def star(g):
    return fish(g, True)
def fishpaths(g):
    """mirrors and jumps in every direction"""
    out = []
    for ext in ("p.fish", "p.sf"):
        for d in "><^v":
            for c in "/\\|_#!?x." + ("O" if ext == "p.sf" else ""):
                for pre in ("", "1", "0", "12", "21"):
                    body = "1" * 5
                    out.append(prog(pre + "v" * 1 + "\n" + " " * len(pre) + d + c * 3 + "\n" + (" " * len(pre) + c) + "55\n" + "2" * 8, opts=[], name=ext, ticks=16))
                    out.append(prog(pre + d + c + "12\n" + c * 8 + "\n" + "3" * 8, opts=[], name=ext, ticks=16))
    return out
EDGE = [0, 1, -1, 2, 5, -7, 33, 64, (1 << 31), (1 << 32) + 3, (1 << 63) - 1, -(1 << 63)]
def values(g, fps=("BITW", "BOOL", "FRTH", "FIXP", "CPLI", "MODU", "BASE", "REFC")):
    out = []
    for fp in fps:
        for c in g.LETTERS[fp]:
            for a in EDGE:
                for b in EDGE:
                    if (fp, c) in (("FIXP", "D"),) and a < 0 or fp == "FRTH" and c == "L" and abs(b) > 100 or fp == "BASE" and abs(b) > 100:
                        continue
                    out.append(prog("123" + g.num(a) + g.num(b) + c + "z@", opts=["-std=be98", "-l" + fp], ticks=150, inp="7f x\n"))
    return out
def strs(g):
    """every STRN instruction with short strings and small numbers"""
    out = []
    S = ["", "a", "b", "ab", "aba", "-12", "12x", " 3"]
    for c in g.LETTERS["STRN"]:
        for s in S:
            for t in S:
                for k in ("", "0", "2", "01-"):
                    if c in "GP" and (t or k == "01-"):
                        continue
                    if c in "GP":
                        pre = g.strz(s) + g.vec([2, 3]) if c == "P" else g.vec([k == "2" and 2 or 0, 0])
                        out.append(prog(pre + c + "z@\nhi there", opts=["-std=be98", "-lSTRN"], ticks=60))
                    else:
                        out.append(prog("7" + g.strz(s) + g.strz(t) + k + c + "z@", opts=["-std=be98", "-lSTRN"], ticks=60, inp="line\n"))
    return out
def toys(g):
    """region instructions with every small size, and overlap"""
    out = []
    body = "\n" + "\n".join(" " * 20 + "abcd"[k:] + "ABCD"[:k] for k in range(4))
    sizes = (-2, -1, 0, 1, 2, 3)
    for c in "CKMV":
        for w in sizes:
            for h in sizes:
                for off in ((0, 0), (1, 0), (0, 1), (1, 1), (-1, 0), (0, -1), (3, 3)):
                    src = (20, 1); dst = (20 + off[0], 1 + off[1])
                    if c in "CM" or True:
                        for a, b in ((src, dst), (dst, src))[:1]:
                            out.append(prog((g.vec(a) + g.vec((w, h)) + g.vec(b)) + c + "z@" + body, opts=["-std=be98", "-lTOYS"], ticks=70))
                            out.append(prog((g.vec(b) + g.vec((w, h)) + g.vec(a)) + c + "z@" + body, opts=["-std=be98", "-lTOYS"], ticks=70))
    for w in sizes:
        for h in sizes:
            out.append(prog(g.num(ord("q")) + g.vec((w, h)) + g.vec((20, 1)) + "Sz@" + body, opts=["-std=be98", "-lTOYS"], ticks=70))
            out.append(prog("1234567" + g.num(h) + g.num(w) + g.vec((20, 1)) + "Fz@" + body, opts=["-std=be98", "-lTOYS"], ticks=70))
            out.append(prog("12" + g.num(h) + g.num(w) + g.vec((20, 1)) + "Gz@" + body, opts=["-std=be98", "-lTOYS"], ticks=70))
    for c in "ABDEHIJLNOPQRTUWXYZ":
        for a in (0, 1, -1, 2, 3, -5, 70):
            for b in (0, 1, 2, -3):
                if c == "H" and abs(b) > 60:
                    continue
                out.append(prog("123" + g.num(a) + g.num(b) + c + "z@" + body, opts=["-std=be98", "-lTOYS"], ticks=70))
                out.append(prog("123" + g.num(b) + g.num(a if c != "H" or abs(a) < 60 else 3) + c + "z@" + body, opts=["-std=be98", "-lTOYS"], ticks=70))
    return out
def subs(g):
    out = []
    for c in "CR":
        for k in (-1, 0, 1, 2, 5):
            for mode in ("", "O"):
                for at in ((0, 1), (2, 1), (-1, 2)):
                    pre = "1234" if c == "C" else "12" + g.vec((0, 2)) + g.vec((1, 0)) + "34"
                    out.append(prog(mode + pre + g.vec(at) * (c == "C") + g.num(k) + c + "z@\n56" + "2R" + "\n  1Rz", opts=["-std=be98", "-lSUBR"], ticks=50))
    for c in "AOJ":
        for mode in ("", "O", "A", "OA"):
            for at in ((0, 1), (2, 1), (-1, 2)):
                out.append(prog("2{" + mode + "12" + g.vec(at) + c + "z@\n5678\n z3", opts=["-std=be98", "-lSUBR"], ticks=40))
    return out
def libs(g):
    out = []
    vs = (0, 1, -1, 3, -3, 7, 9)
    for c in "MUR":
        for a in vs:
            for b in vs:
                out.append(prog("5" + g.num(a) + g.num(b) + c + "z@", opts=["-std=be98", "-lMODU"], ticks=700, ms=12000))
    for c in "CDILMVX":
        out.append(prog("5" + c + "k" * 0 + "z@", opts=["-std=be98", "-lROMA"], ticks=300, ms=12000))
        out.append(prog("2k" + c + "z@", opts=["-std=be98", "-lROMA"], ticks=500, ms=12000))
    for c in "ACFMQSTZ":
        out.append(prog("5" + c + "z@", opts=["-std=be98", "-lNULL"], ticks=100, ms=12000))
    for c in "CDGHLSU":
        for a in ("", "3", "23", "01-"):
            out.append(prog("5" + a + c + "z@", opts=["-std=be98", "-lTERM"], ticks=900, ms=12000))
    return out
def input93(g):
    out = []
    for i in ("", "1", "12 ", "-3x", "x", "+5", "- 4", "0x1f", "9223372036854775807", "9223372036854775808", "-9223372036854775808 1", "99999999999999999999z", "a1b2c", "\n\n7\n", "1\n", "  6 7", "\xff1", "\x00" + "2", "--1", "1-2", "1.5", "\t9"):
        for c in ("&.", "&.&.", "~.&.", "&.~.", "~.~.~.", "&&.."):
            for std in ("be93", "be98"):
                out.append(prog(c + "@", opts=["-std=" + std], ticks=20, inp=i))
    return out
def files_in(g):
    out = []
    for w in words(["a", " ", "\n", "\r", "\f"], 0, 3):
        for fl in (0, 1, 2):
            for dim in (1, 2, 3):
                out.append(prog(g.vec([3, 2, 1][:dim]) + g.num(fl) + g.strz("f") + "iz@", opts=["-std=" + ("une98", "be98", "tre98")[dim - 1]], files={"f": "".join(w).encode("latin-1")}, ticks=40))
    return out
def files_out(g):
    out = []
    for w in (0, 1, 2, 5):
        for h in (0, 1, 3):
            for at in ((0, 0), (20, 1), (-1, 0), (19, 2)):
                for fl in (0, 1, 2):
                    out.append(prog(g.vec((w, h)) + g.vec(at) + g.num(fl) + g.strz("o") + "oz@\n" + " " * 20 + "ab  c\n" + " " * 21 + " x\n\n" + " " * 20 + "q", ticks=40))
    return out


def bigops(g):
    """instructions that choose by their operands, with edge values"""
    out = []
    vs = EDGE + [(1 << 32), -(1 << 32), (1 << 33) + 1, -(1 << 31), (1 << 62)]
    for a in vs:
        for c in "_|!":
            out.append(prog("v\n>" + g.num(a) + c + "12z@\n" + " " * 90 + "\n" + "z" * 90, ticks=75))
        out.append(prog(g.num(a) + "m12z@\n\fzzz\n\fz", opts=["-std=tre98"], ticks=75))
        for b in vs:
            out.append(prog("v\n>" + g.num(a) + g.num(b) + "w12z@\n" + "z" * 90, ticks=120))
            out.append(prog("3" + g.num(a) + g.num(b) + "`.@", ticks=120))
    for a in (0, 1, -1, 2, -2, 3, -3, 7, -7, 20, -20, 100, -100):
        for d in "><v^":
            for tail in ("12345z@", "", "z  z"):
                code = "9" + g.num(a) + "j" + tail
                out.append(prog({">": code, "<": "<" + code[::-1], "v": "v\n" + "\n".join(code), "^": "^\n" + "\n".join(code[::-1])}[d], ticks=30))
        out.append(prog(g.vec((2, 0)) + "x" + " ".join("9" + g.num(a) + "j12345z@"), ticks=30))
    for a in vs + [4, 300]:
        for pre in ("", "t", "1kz"):
            out.append(prog(pre + g.num(a) + "q5.@", ticks=90))
        out.append(prog(g.num(a) + "1kq5.@", ticks=90))
    return out
def dimensions(g):
    """wrapping along dimensions that NFUN added"""
    out = []
    for c in "XYZ":
        for n in range(0, 6):
            for d in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 0, 0, 1), (-1, 0, 0, 2), (0, 0, 0, 0, -1)):
                out.append(prog("12" + g.num(n) + c + g.vec(d) + "xz1z2z\nzz\n", opts=["-std=be98", "-lNFUN"], ticks=40, vd=6))
                out.append(prog("12" + g.num(n) + c + "'z" + g.vec([1] * len(d)) + "p" + g.vec(d) + "xz1z2z", opts=["-std=tre98" if n % 2 else "-std=be98", "-lNFUN"], ticks=50, vd=6))
    return out
FNUM = ["0", "1", "3", "01-", "ff*f*f*f*f*f*f*f*", "ff*f*f*f*f*f*f*f*01-*", "88*8*8*8*8*8*8*8*8*4*", "12,", "13,", "01-2,", "ff*f*f*f*f*f*f*f*f*f*f*f*f*f*f*f*f*", "1a,", "5", "aa*01-,", "88*8*8*8*8*8*8*8*8*4*1+"]
def fishnum(g):
    """><> arithmetic and printing of whole, large, negative and broken numbers"""
    out = []
    for a in FNUM:
        for c in ("n", "o", "1&&n" if False else "&&n", "?1n", "!1n", "[ln", ":n" , "0[ln", "{ln", "1.n", "03pn", "03gn", "0gn"):
            out.append(prog("12" + a + c + ";", opts=[], name="p.fish", ticks=70))
            out.append(prog("12" + a + c + ";", opts=[], name="p.sf", ticks=70))
        for b in FNUM:
            for c in "+-*,%=()":
                out.append(prog(a + b + c + "n;", opts=[], name="p.fish", ticks=90))
    return out
def formats(g):
    out = []
    L = [(h, l) for h in (0, 1, -1, 5, (1 << 31), -(1 << 31)) for l in (0, 1, -1, 42, (1 << 31), (1 << 32) - 1, -(1 << 31), (1 << 32) + 5)]
    for h, l in L:
        for f in ("%ld", "%lx"):
            out.append(prog("7" + g.strz(f) + g.num(h) + g.num(l) + "L" + "z@", opts=["-std=be98", "-lFPRT"], ticks=150))
    for v in (0, 1, -1, 9, -42, 2147483647, -2147483648, (1 << 31), (1 << 32) + 7, -(1 << 33)):
        for f in ("%d", "<%5d>", "%-4d|", "%05d", "%x", "n", "%%", ""):
            out.append(prog("7" + g.strz(f) + g.num(v) + "Iz@", opts=["-std=be98", "-lFPRT"], ticks=150))
    for t in ("", "a", "hello", "  x"):
        for f in ("%s", "%6s", "%-6s|", "x%sy", "%.2s", "n", ""):
            out.append(prog("7" + g.strz(f) + g.strz(t) + "Sz@", opts=["-std=be98", "-lFPRT"], ticks=90))
            out.append(prog("7" + g.strz(t) + "S" + "z@", opts=["-std=be98", "-lORTH"], ticks=60))
    return out
def universes(g):
    """MVRS: creation with every flag, and the others with known and unknown names"""
    out = []
    fl = [0] + [1 << k for k in range(0, 17)] + [3 << 14, 5 << 13, (1 << 13) + 1, -1, (1 << 32)]
    for f in fl:
        for nm in ("x", "p.b98"):
            out.append(prog(g.strz(nm) + g.num(f) + "00B" + "C.N,@", opts=["-std=be98", "-lMVRS"], ticks=90))
    for f in (0, 1 << 14):
        for a in range(-1, 6):
            for b in range(-1, 6):
                out.append(prog(g.strz("x") + g.num(f) + g.num(a) + g.num(b) + "B" + "C.@", opts=["-std=be98", "-lMVRS"], ticks=90))
    mk = g.strz("x") + "000B"
    for pre in ("", mk, mk + g.strz("y") + "000B"):
        for nm in ("x", "y", "p.b98", "", "q"):
            for op in (g.strz(nm) + "J", g.strz(nm) + g.vec((1, 0, 0)) + g.vec((1, 0, 0)) + "G", g.strz(nm) + g.vec((3, 1)) + g.vec((0, 0, 0)) + g.vec((2, 1)) + "F",
                       g.strz(nm) + g.vec((3, 1, 0)) + g.vec((0, 0)) + g.vec((2, 1)) + "P", "N", "C."):
                for post in ("C.N,@", "z1@"):
                    out.append(prog(pre + op + post + "\nabc", opts=["-std=be98", "-lMVRS"], ticks=200))
    return out
def timers(g):
    return [prog("".join(w) + "@", opts=["-std=be98", "-lHRTI"], ticks=40) for w in words(["G", "M", "E", "T", "S", "z", "t"], 1, 4)]
def directories(g):
    ops = [g.strz(n) + c for c in "CMR" for n in ("d", "e", "d/x", "nope", "f", "", "n/m")]
    return [prog("7" + "".join(w) + "z" + g.vec((2, 1)) + g.vec((0, 0)) + "0" + g.strz("o") + "o@", opts=["-std=be98", "-lDIRF"], files={"d/": b"", "e/": b"", "e/k": b"1", "f": b"x"}, ticks=90) for w in words(ops, 1, 2)]
def exchange(g):
    """IIPC between a parent and a child"""
    t = ["I", "A", "0G", "1G", "0L", "1L", "70P", "81P", "D", "z", "2G", "t"]
    return [prog("".join(w) + "t" + "".join(v) + "zz@", opts=["-std=be98", "-lIIPC"], ticks=60) for w in words(t, 1, 1) for v in words(t, 1, 2)] \
         + [prog("t" + "".join(v) + "zz.@", opts=["-std=be98", "-lIIPC"], ticks=60) for v in words(t, 3, 3)]
def references(g):
    t = ["12R", "34R", "12R", "D", ":D", "0D", "1D", "5D", "01-D", "z", "t"]
    return [prog("".join(w) + "z@", opts=["-std=be98", "-lREFC"], ticks=60) for w in words(t, 1, 3)]
def orths(g):
    out = []
    for fp, vs in (("ORTH", (0, 1, -1, 2, 5, 20)), ("FISH", (0, 1, 2)), ("JSTR", (0, 1, 2, -1)), ("NFUN", (0, 1, 2, 3)), ("CPLI", (0, 1, -2, 5))):
        for c in g.LETTERS[fp]:
            for a in vs:
                for b in vs:
                    for d in (">", "v"):
                        code = "123" + g.num(b) + g.num(a) + c + "z1@"
                        out.append(prog((code if d == ">" else "v\n" + "\n".join(x + "abc" for x in code)) + "\nabcdefghijk\nzyxwvutsrqp", opts=["-std=be98", "-l" + fp], ticks=40, vd=6 if fp == "NFUN" else 3))
    return out
def frth(g):
    out = []
    for depth in range(0, 6):
        pre = "12345"[:depth]
        for c in "DLOPR":
            for a in ("", "0", "1", "2", "3", "4", "5", "6", "01-", "02-", "05-", "09-"):
                for m in ("", "I", "Q"):
                    out.append(prog(pre + m + a + c + "z@", opts=["-std=be98", "-lFRTH"] + (["-lMODE"] if m else []), ticks=40))
    return out
def commands(g):
    """each debugger command, with good and bad arguments, at the first stop and after steps"""
    out = []
    base = "12{t'a31p3kz4.B@\nzzz >z<"
    args = ["", " 0", " 1", " 2", " -1", " x", " (0,0)", " (3,1)", " (1)", " (0,0,1)", " (1,1) (2,1)", " (0,0) (3,2) (0,1)", " (0,0) (3,2) (1,0)", " (x", " ()", " p.b98", "  1", " 1 1", " 1 0", " 0 0"]
    for c in ("s", "step", "r", "c", "p", "peek", "d", "dir", "storage", "pos", "t", "thread", "bt", "setdelta", "setpos", "g", "get", "l", "list", "bp", "break", "wp", "watch", "read", "u", "universe", "help", "", "q"):
        for a in args:
            for pre in ("", "s\ns\ns\ns\ns\n"):
                for post in ("\npos\nd\np\nr\nbt\nr\n",):
                    out.append(prog(base, opts=["-g"], inp=pre + c + a + post, ticks=60))
    return out
def dbugs(g):
    t = ["B", "E", "D", "40A", "41A", "31W", "'x31p", "z", "t", "3kz"]
    return [prog(g.fpload("DBUG") + "$$" + "".join(w) + "z1.@\nzzzzz", opts=o, inp=i, ticks=60) for w in words(t, 1, 2) for o, i in (([], "s\npos\nr\nbt\nr\nr\n"), (["-g"], "r\nbt\nr\npos\nr\n"))]
def multis(g):
    """two programs side by side"""
    out = []
    B = ["@", "1.@", "zz1.@", "3q", "z4q", "t1.@", "zzzz2.@", ">z<"]
    for a in B:
        for b in B:
            out.append(lambda n, a=a, b=b: Sc(n, None, name="m.fmv", files={"a.b98": a.encode(), "b.b98": b.encode(), "m.fmv": b"a.b98\nb.b98\n"}, opts=["-std=be98"], ticks=40, vd=3))
    return out
def beqs(g):
    out = []
    heads = ["", "Dimensions 1\n", "Dimensions 2\n", "Dimensions 3\n", "Dimensions 4\n"]
    orgs = ["Version 1", "Origin 0", "Origin 1", "Origin 2:1", "Origin -1:-2", "Origin 1:1:1", "Origin 0:0:0:1"]
    for h in heads:
        for o in orgs:
            for c in ("", ",Coord 1", ",Coord 0:1"):
                for b in ("12z@", "", "  a b"):
                    for o2 in ("", "Origin 3:2,Lines 1\nxy\n"):
                        out.append(prog(h + o + c + ",Lines 1\n" + b + "\n" + o2, opts=[], name="p.beq", ticks=12, vd=6, ms=800))
    return out
def libfiles(g):
    out = []
    for w in words(["=A\n", "=C\n", "12z@\n", " z\n", "\n", "=Z\n"], 1, 4):
        out.append(prog("".join(w), opts=[], name="p.fl", ticks=10, ms=800))
    return out
def starcalls(g):
    out = []
    subs = ["R", "1R", "12+R", "~R", "7u>+OR", "4`R\n`", "D5IR", "I5DR", "1[5]R", "5&&R", "11CR", "rR", "ln;", "1C", "R R"]
    for s in subs:
        for pre in ("", "1", "12", "123", "5&"):
            for pos in ("01", "11", "31"):
                for mid in ("", "n", pos + "C"):
                    x = int(pos[0])
                    out.append(prog(pre + pos + "C" + mid + "ln;\n" + " " * (x + 1) + s, opts=[], name="p.sf", ticks=60))
    return out
def starfiles(g):
    out = []
    for name in ("f", "g", "e", "d"):
        op = "'%s'1F" % name
        for w in words(["i", "n", "5", "'ab'", "1F", "0F", "2F", "l"], 1, 3):
            if len(w) == 3 and "F" not in "".join(w):
                continue
            out.append(prog("9" + op + "".join(w) + ";", opts=[], name="p.sf", ticks=60, inp="qr", files={"f": b"xy\n\xff", "e": b"", "d/": b""}))
    return out
def dives(g):
    return [prog("12" + "".join(w) + "3n;", opts=[], name="p.sf", ticks=30) for w in words(list("uO`1+r~v"), 1, 4) if "u" in w or "O" in w]
def hooks(g):
    return [prog("1" + "".join(w) + "3n;\n" + "1v^`><12\n" + ">`<v^`12", opts=[], name="p.sf", ticks=30) for w in words(list("`><v^/"), 1, 4) if "`" in w]
EVERY = dict(every_stack=stack, every_stack93=stack93, every_arith=arith, every_delta=deltas, every_torus=torus, every_turn=turns, every_k=iterate, every_cell=cells, every_fishcell=fishcells,
             every_space=space, every_block=blocks, every_mode=modes, every_string=strings, every_text=texts, every_conc=conc, every_y=info, every_load=loads, every_fing=fings, every_option=options,
             every_cap=caps, every_fish=fish, every_star=star, every_fishpath=fishpaths, every_value=values, every_str=strs, every_toys=toys, every_sub=subs, every_lib=libs, every_input=input93,
             every_in=files_in, every_out=files_out,
             every_big=bigops, every_dim=dimensions, every_fishnum=fishnum, every_format=formats, every_mvrs=universes, every_timer=timers, every_dir=directories, every_iipc=exchange,
             every_refc=references, every_orth=orths, every_frth=frth, every_command=commands, every_dbug=dbugs, every_fmv=multis, every_beq=beqs, every_fl=libfiles, every_call=starcalls,
             every_file=starfiles, every_dive=dives, every_hook=hooks)
