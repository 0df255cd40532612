"""Scenario families: programs, inputs, files and options that exercise one area of the interpreter each.
Every family is a function (rng, index) -> Sc.  Nothing here knows what the right outcome is."""
import random, sys
from vlib import Sc

M64 = 1 << 64
def wrap(v):
    v &= M64 - 1
    return v - M64 if v >> 63 else v

# ---------------------------------------------------------------- pushing values in Funge-98
SPECIAL = {-(1 << 63): "'@:*:*:*'@*'@*8*", (1 << 63) - 1: "'@:*:*:*'@*'@*8*1-", 1 << 32: "'@:*:*88**4*" if False else "'@:*:*'@*4*",
           1 << 31: "'@:*:*'@*2*", -(1 << 31): "'@:*:*'@*2*0\\-", (1 << 32) - 1: "'@:*:*'@*4*1-", (1 << 31) - 1: "'@:*:*'@*2*1-",
           -1: "01-", 1 << 62: "'@:*:*:*'@*'@*4*", -((1 << 63) - 1): "'@:*:*:*'@*'@*8*1+"}
def num(v):
    """Funge-98 code pushing v"""
    v = wrap(v)
    if v in SPECIAL:
        return SPECIAL[v]
    if 0 <= v <= 15:
        return "0123456789abcdef"[v]
    if 32 < v < 127:
        return "'" + chr(v)
    if -15 <= v < 0:
        return "0" + num(-v) + "-"
    if v < 0 and v > -5000:
        return "0" + num(-v) + "-"
    d = 33 + ((v - 33) % 64)
    q = (v - d) // 64
    if q == 0:
        return "'" + chr(d)
    return num(q) + "'@*" + "'" + chr(d) + "+"
def num93(v):
    if 0 <= v <= 9:
        return str(v)
    if 10 <= v <= 18:
        return "9%d+" % (v - 9)
    if v < 0:
        return "0" + num93(-v) + "-"
    q, r = divmod(v, 9)
    return num93(q) + "9*" + (("%d+" % r) if r else "")
def strz(s):
    """pushes s as a 0-terminated string (s without quotes, in a row)"""
    if s == "":
        return "0"
    return '0"' + s[::-1] + '"'
def fpload(fp):
    return '"%s"%d(' % (fp[::-1], len(fp))
def vec(v):
    return "".join(num(x) for x in v)

INTERESTING = [0, 1, -1, 2, -2, 3, 5, 7, 9, 10, 15, 16, 31, 32, 33, 48, 63, 64, 65, 90, 97, 100, 126, 127, 128, 129, 255, 256, 257, -128, -129,
               -255, -256, 1000, 65535, 65536, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, (1 << 32) - 1, (1 << 32) + 5, 1 << 62, (1 << 63) - 1,
               -(1 << 63), -(1 << 63) + 1, 999999999999, -999999999999]
def val(r):
    k = r.random()
    if k < .45:
        return r.randint(0, 9)
    if k < .6:
        return r.randint(-9, 30)
    if k < .85:
        return r.choice(INTERESTING)
    if k < .93:
        return r.randint(-70000, 70000)
    return wrap(r.getrandbits(64))
def small(r):
    k = r.random()
    return r.randint(-4, 9) if k < .6 else r.randint(-15, 15) if k < .9 else r.choice([0, 1, -1, 2, 20, -20, 50])

# ---------------------------------------------------------------- laying out straight code
def lay(code, r, dirs="><v^"):
    """the code as a program, in one of the four directions (code without newlines)"""
    d = r.choice(dirs)
    if d == ">":
        return code + "@"
    n = len(code) + 1
    if d == "<":
        return "<@" + code[::-1]            # wraps to the far end
    if d == "v":
        return "v\n" + "\n".join(code + "@")
    return "^\n@\n" + "\n".join(code[::-1])
def rand_field(r, w, h, alpha, pages=1):
    out = []
    for z in range(pages):
        rows = []
        for y in range(h):
            rows.append("".join(r.choice(alpha) for _ in range(r.randint(1, w) if r.random() < .3 else w)))
        out.append("\n".join(rows))
    return "\n\f".join(out)

A93_1 = "0123456789" + "<>@#_?!%*+-/`$:\\&~\".,gp" + "  "
A93_2 = A93_1 + "^v|"
A98_1 = "0123456789abcdef<>#_?!%*+-/`$:\\&~\".,gpyz;;jrxkqtnu{}'s()" + "    "
A98_2 = A98_1 + "^v|[]w@"
A98_3 = A98_2 + "hlm"
def drop(s, bad):
    return "".join(c for c in s if c not in bad)
def soup(r, std, k=None):
    base = {"u93": A93_1, "b93": A93_2, "u98": A98_1, "b98": A98_2, "t98": A98_3}[std]
    a = list(base)
    a = a + list(r.choice(["", "", "<>^v" if std[0] != "u" else "<>", "0123456789", "{}u", "gp", "sk'", "w[]" if std in ("b98", "t98") else "_",
                           "t", "\"", ";", "jk", "x", "y"])) * r.randint(1, 4)
    if std in ("u93", "b93"):
        a = [c for c in a if c in A93_2]
    if r.random() < .15:
        a += list("ABCXYZ=io")if std in ("b98", "u98", "t98") and False else list("ABCXYZ")
    for c in "q@":
        if r.random() < .6:
            a = [x for x in a if x != c]
    if r.random() < .5:
        a = [x for x in a if x not in "\""]
    return a
STD = {"u93": "-std=une93", "b93": "-std=be93", "u98": "-std=une98", "b98": "-std=be98", "t98": "-std=tre98"}
INPUTS = ["", "1 2 3\n", "12 abc\n-7 xyz", "hello world\n42\n", "a\r\nb\n5", "99999999999999999999 1", "x", "\r", "3\n4\n5\n6\n"]

# ---------------------------------------------------------------- random programs
def soup_any(r, n, stds=("u93", "b93", "u98", "b98", "b98", "t98"), ticks=150):
    std = r.choice(stds)
    a = soup(r, std)
    w, h = r.choice([(4, 3), (8, 5), (12, 6), (20, 4), (6, 6), (3, 1), (30, 8)])
    if std[0] == "u":
        w, h = max(w, 6), 1
    code = rand_field(r, w, h, a, pages=r.randint(1, 3) if std == "t98" else 1)
    if r.random() < .4 and std in ("b98", "t98", "u98"):
        ops = "".join(num(val(r)) for _ in range(r.randint(1, 5)))
        code = ops + code
    opts = [STD[std]]
    if r.random() < .15:
        opts.append("-ftopo=" + r.choice(["torus", "lahey"]))
    if r.random() < .3:
        opts.append("-fstrings=" + r.choice(["multispace", "sgml", "c"]))
    if r.random() < .15:
        opts.append("-fcells=" + r.choice(["char", "int"]))
    if r.random() < .1:
        opts.append("-fno-concurrent")
    if r.random() < .2:
        opts.append("-finvert-hl")
    return Sc(n, code, opts=opts, inp=r.choice(INPUTS), vd=3, ticks=ticks, tag="soup " + std)

CORE_LINE = {"": ["z", "r r", "#z", "n"], "1": list("!$:.,'ja") + ["'A", "0k z", "2k1"], "2": list("+-*/%`\\") + ["w" ]}
def line98(r, n, ops=None, fps=(), ticks=400, vd=3, dim=None, cnt=(3, 9), vals=val, opts=(), inp=None):
    """operands, instructions, operands, ... in a straight line"""
    code = ""
    for _ in range(r.randint(*cnt)):
        code += "".join(num(vals(r)) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])))
        code += r.choice(ops)
    fps = list(fps)
    o = list(opts)
    pre = ""
    if fps:
        if r.random() < .5:
            o += ["-l" + f for f in fps]
        else:
            pre = "".join(fpload(f) for f in fps) + ("n" if r.random() < .5 else "")
    std = dim or r.choice([2, 2, 2, 3, 1])
    dirs = "><v^" if std > 1 else "><"
    if len(code) > 150:
        dirs = "><"
    o = [["-std=une98", "-std=be98", "-std=tre98"][std - 1]] + o
    return Sc(n, lay(pre + code, r, dirs), opts=o, ticks=ticks, vd=vd, inp=r.choice(INPUTS) if inp is None else inp, tag="line " + " ".join(fps))

def stack_ops(r, n):
    return line98(r, n, ops=["$", ":", "\\", "n", "+", "$$", "::", "2{", "1}", "1u", "0{", "01-{", "01-u", "02-}", "3u", "\\\\", ":+", "$:"], vals=lambda r: r.randint(0, 15), cnt=(6, 20))
def arith(r, n):
    return line98(r, n, ops=["+", "-", "*", "/", "%", "`", "!", ".", ",", "+.", "*.", "/.", "%."], cnt=(4, 10))
def arith93(r, n):
    code = ""
    for _ in range(r.randint(4, 10)):
        for _ in range(r.choice([1, 2, 2, 3])):
            code += num93(r.choice([r.randint(0, 9), r.randint(-9, 300), r.choice([0, 1, -1, 255, 127, 128, 1000000, -1000000])]))
        code += r.choice("+-*/%`!.,:\\$")
    code += "@"
    std = r.choice(["u93", "b93"])
    out = []
    if std == "b93" and len(code) > 60:      # snake over the page
        rows = [code[k:k + 70] for k in range(0, len(code), 70)]
        prog = []
        for k, row in enumerate(rows):
            prog.append((row.ljust(70) + "v") if k + 1 < len(rows) else row)
            if k + 1 < len(rows):
                prog.append("v".rjust(1).ljust(70, " ") if False else "")
                prog[-1] = "v" + " " * 69 + "<"
                rows[k + 1] = rows[k + 1]
        # rows start with '>' to continue
        res = []
        for k in range(0, len(prog)):
            line = prog[k]
            if k % 2 == 0 and k > 0:
                line = ">" + line[0:]
                line = ">" + prog[k]
            res.append(line)
        code = "\n".join(res)
    return Sc(n, code, opts=[STD[std]], ticks=400, tag="arith93")

def wrapping(r, n):
    """few cells, far apart, flying pointers"""
    dim = r.choice([1, 2, 2, 2, 3])
    if dim == 1:
        code = num(r.randint(-7, 7)) + "x" + "".join(r.choice("z z12 #$  ") for _ in range(r.randint(3, 25)))
        return Sc(n, code, opts=["-std=une98"], ticks=60, tag="wrap1")
    w, h = r.randint(3, 25), r.randint(1, 9)
    rows = [[" "] * w for _ in range(h)]
    pre = vec([r.randint(-6, 6), r.randint(-5, 5)] + ([r.randint(-2, 2)] if dim == 3 else [])) + "x"
    for _ in range(r.randint(0, w * h // 2)):
        rows[r.randrange(h)][r.randrange(w)] = r.choice("z12rr#z$:[]wx<>^v" if r.random() < .3 else "z1234#z")
    body = "\n".join("".join(x) for x in rows)
    pages = ""
    if dim == 3:
        for _ in range(r.randint(0, 2)):
            pages += "\n\f" + "\n".join("".join(r.choice("z    1") for _ in range(r.randint(1, w))) for _ in range(r.randint(1, h)))
    head = pre
    # sometimes enlarge the bounds first, also to the negative side
    if r.random() < .5:
        head = "'z" + vec([r.randint(-12, 30), r.randint(-8, 12)] + ([r.randint(-3, 3)] if dim == 3 else [])) + "p" + pre
    return Sc(n, head + "\n" + body + pages, opts=["-std=be98" if dim == 2 else "-std=tre98"], ticks=80, tag="wrap%d" % dim)

def torus(r, n):
    opt = r.choice([["-std=be93"], ["-std=une93"], ["-std=be98", "-ftopo=torus"], ["-ftopo=torus"], ["-std=be98", "-ftopo=torus"], ["-std=be93", "-ftopo=torus"]])
    w, h = r.choice([(5, 2), (80, 25), (85, 27), (79, 24), (81, 26), (80, 1), (3, 25), (30, 10)])
    if opt == ["-std=une93"]:
        h = 1
    a = "z1 2 #   " if "98" in opt[0] or opt[0][1] == "f" else "1 2 #   $:"
    rows = ["".join(r.choice(a if r.random() < .9 else (a + "<>" if h == 1 else a + "<>^v")) for _ in range(r.randint(1, w))) for _ in range(h)]
    first = r.choice("<>^v" if h > 1 else "<>")
    if r.random() < .5 and "93" not in opt[0]:
        rows[0] = vec([r.randint(-3, 3), r.randint(-3, 3)]) + "x" + rows[0]
    else:
        rows[0] = first + rows[0][1:]
    return Sc(n, "\n".join(rows), opts=opt, ticks=130, tag="torus")

def flow98(r, n):
    """control flow with random surroundings"""
    a = list("><^v[]rx_|w#j;k?z123  ") + list(r.choice(["><^v", ";;;", "kkj", "#", "w_|", "12"])) * 3
    w, h = r.choice([(6, 4), (10, 6), (15, 5)])
    pre = "".join(num(small(r)) for _ in range(r.randint(0, 6)))
    code = rand_field(r, w, h, a)
    three = r.random() < .25
    if three:
        code = rand_field(r, w, h, a + list("hlm"), pages=2)
    return Sc(n, pre + code, opts=["-std=tre98" if three else "-std=be98"] + (["-finvert-hl"] if r.random() < .3 else []), ticks=120, tag="flow")
def flow_k(r, n):
    inst = r.choice(["z", ":", "$", "#", ">", "<", "r", "'x", "sx", "1", "x", "[", "]", "j", "@", "q", "t", "{", "}", "u", ".", ",", "\"a\"", ";a;z", " ", "  z", ";k;1",
                     "k1", "y", "g", "p", "?", "~", "&", "A", "n", "\\", "+", "w", "_", "|"])
    k = r.choice([0, 1, 2, 3, 4, 7])
    pre = "".join(num(small(r)) for _ in range(r.randint(0, 5)))
    code = pre + num(k) + "k" + " " * r.choice([0, 0, 1, 3]) + (";x;" if r.random() < .2 else "") + inst + r.choice(["z12.", "1.2.", ";z;5", ""])
    return Sc(n, lay(code, r, "><v^"), ticks=120, inp=r.choice(INPUTS), tag="k")
def flow_semi(r, n):
    code = "".join(r.choice(["1", "2", ";ab;", ";;", "; q ;", "#;1;", "z", ";#;", "r;x;r", "12_;y;", " "]) for _ in range(r.randint(2, 10)))
    return Sc(n, lay(code, r, "><v^"), ticks=100, tag="semi")
def flow_rand(r, n):
    dim = r.choice([1, 2, 3])
    code = ["??????", "v?v\n?????\n?v?\n???", "?v?\n???\n\f???\n???\n\f???"][dim - 1]
    return Sc(n, code, opts=[["-std=une98", "-std=be98", "-std=tre98"][dim - 1]], ticks=40, tag="random direction")

def coord(r, big=.2):
    return r.choice([r.randint(-3, 12)] * 3 + [r.randint(-40, 60)] + ([r.choice([INTERESTING[k] for k in range(len(INTERESTING))])] if r.random() < big else [1]))
def gp98(r, n):
    dim = r.choice([1, 2, 2, 3])
    code = ""
    pts = [[coord(r) for _ in range(dim)] for _ in range(3)]
    for _ in range(r.randint(3, 8)):
        p = r.choice(pts) if r.random() < .7 else [coord(r) for _ in range(dim)]
        k = r.random()
        if k < .45:
            code += num(val(r) if r.random() < .7 else 32) + vec(p) + "p"
        elif k < .85:
            code += vec(p) + "g" + r.choice(["", ".", ","])
        elif k < .92:
            code += "2{" if r.random() < .6 else "1}"
        elif k < .96:
            code += num(r.choice([65, 300, -1, 200, 32])) + "s" + "z"
        else:
            code += "'" + r.choice("abZ \x80\xff~")
    opts = [["-std=une98", "-std=be98", "-std=tre98"][dim - 1]]
    if r.random() < .2:
        opts.append("-fcells=char")
    return Sc(n, lay(code, r, "><"), opts=opts, ticks=500, tag="space")
def gp93(r, n):
    code = ""
    for _ in range(r.randint(2, 6)):
        v = num93(r.choice([r.randint(0, 300), r.randint(-300, 300), 32, 65]))
        p = num93(r.randint(-2, 30)) + num93(r.randint(-2, 27))
        code += (v + p + "p") if r.random() < .6 else p + "g."
    std = r.choice(["b93", "b93", "b93"])
    code = code[:75]
    return Sc(n, code + "@", opts=[STD[std]] + (["-fcells=int"] if r.random() < .3 else []), ticks=200, tag="space93")
def bounds(r, n):
    """growth and erasure at the edges, seen through y and through wrapping"""
    code = ""
    for _ in range(r.randint(2, 6)):
        p = [r.choice([-5, -3, -1, 0, 3, 40, 60, 90]), r.choice([-4, -2, 0, 1, 2, 5])]
        code += num(r.choice([32, 32, 90, 122])) + vec(p) + "p"
        if r.random() < .3:
            code += "fe+k$" if False else num(r.choice([20, 21, 22, 18, 19])) + "y"
    code += r.choice(["@", "<", "z"])
    return Sc(n, code, ticks=300, tag="bounds")

def blocks(r, n):
    code = "".join(num(r.randint(0, 40)) for _ in range(r.randint(0, 8)))
    for _ in range(r.randint(2, 10)):
        code += num(r.choice([0, 1, 2, 3, 5, -1, -2, -3, 12, 40, -30])) + r.choice("{{{}}uu")
        code += r.choice(["", "", "1", "27", "$", "5y" if False else "z", vec([1, 0]) + "g", "n", "#z1", "'B" + vec([3, 4]) + "p"])
    return line_wrap(r, n, code, tag="blocks")
def line_wrap(r, n, code, dim=None, opts=(), tag="", ticks=400, vd=3, inp="", files=None, name="p.b98"):
    std = dim or r.choice([2, 2, 2, 3, 1])
    dirs = "><v^" if std > 1 and len(code) < 150 else "><"
    return Sc(n, lay(code, r, dirs), name=name, opts=[["-std=une98", "-std=be98", "-std=tre98"][std - 1]] + list(opts), ticks=ticks, vd=vd, tag=tag, inp=inp, files=files)

def strings(r, n):
    style = r.choice(["multispace", "sgml", "c"])
    parts = []
    for _ in range(r.randint(1, 4)):
        s = "".join(r.choice(["a", "B", "9", " ", "  ", "    ", "\t", "\\n", "\\\\", "\\0", "\\x", "@", ">", "\\e", "\x80", "k", ";", " \t "] if style != "c" or True else []) for _ in range(r.randint(0, 9)))
        if style == "c" and r.random() < .5:
            s += "\\\"" + r.choice(["", "q", " "])
        parts.append('"' + s + '"' + r.choice(["", ",", "1", " "]))
    code = "".join(parts)
    std = r.choice([["-std=be98"], ["-std=be93"], ["-std=une98"], ["-std=tre98"], []])
    opts = list(std)
    if r.random() < .7:
        opts.append("-fstrings=" + style)
        if r.random() < .1:
            opts.append("-fstrings=" + r.choice(["multispace", "sgml", "c"]))
    if r.random() < .3:      # wrapping string
        k = r.randint(0, len(code))
        code = code[k:] + code[:k]
    if r.random() < .3 and opts[:1] != ["-std=une98"]:
        code = "v" + " " * r.randint(0, 2) + "\n" + "\n".join((" " * r.choice([0, 0, 0])) + c for c in code)
        return Sc(n, code, opts=opts, ticks=120, tag="strings v")
    return Sc(n, (" " * r.choice([0, 0, 3])) + code + r.choice(["@", "  ", "", "<"]), opts=opts, ticks=120, tag="strings")

def concurrent(r, n):
    a = list("tt>><^v123z.:r#$  ") + list(r.choice(["", "gp", "kk", "{}u", "@", "x", "\"", "[]"])) * 2
    w, h = r.choice([(8, 4), (12, 4), (6, 6), (20, 2)])
    code = r.choice(["", "1t", "2kt", "t", "3t2", "'av'bt"]) + rand_field(r, w, h, a)
    if r.random() < .5:
        code = code.replace("z", "@", r.randint(1, 3))
    return Sc(n, code, ticks=100, opts=["-std=be98"] + (["-l" + r.choice(["TOYS", "ROMA" if False else "FISH", "MODE"])] if r.random() < .2 else []), tag="concurrent")
def conc_struct(r, n):
    """parents and children that print, write to space and end at different times"""
    def body(k):
        return "".join(r.choice(["1", "z", ".", ":", "'%c," % (65 + k), "$", num(r.randint(0, 200)) + "0" + num(2 + k) + "p", "2{", "1}"]) for _ in range(r.randint(1, 8)))
    code = "#v" + "t" * 1
    rows = ["#vt#<" if False else "", ""]
    c = body(0) + r.choice(["@", "t@", "2q", "3kt@", "t" + body(3) + "@"])
    p = body(1) + r.choice(["@", "t" + body(2) + "@", num(r.choice([0, 3, 256, -1, 300])) + "q", "@"])
    # child goes back west from t, parent on east
    prog = c[::-1] + ">" + "" if False else None
    code = "v" + "\n" + "".join(reversed(c)) + "t" + p
    code = " " * len(c) + "v\n" + c[::-1] + ("z" if r.random() < .3 else "") + ">"[:0] + "t" + p
    start = "#" if False else ""
    line0 = ">" * 1 + " " * (len(c) - 1) + "v"
    line1 = c[::-1] + "t" + p
    # the pointer comes down at the t in column len(c): put it facing east through an arrow left of t
    line1 = c[::-1] + "rt"[1:] + p
    line0 = " " * len(c) + ">" if False else " " * max(0, len(c) - 1) + "v"
    line1 = c[::-1][:-1] + (c[::-1][-1:] or "z")
    row = c[::-1] + ">t" + p          # child reflected meets '>' again: it turns back east unless jumped
    row = c[::-1] + "t" + p
    col = len(c)
    return Sc(n, " " * (col) + "v\n" + " " * col + ">"[:0] + "\n".join([row]), ticks=200, tag="concurrent tree")

def ends(r, n):
    k = r.choice([0, 1, 3, 127, 128, 255, 256, 257, 300, -1, -200, 1000, 1 << 32, (1 << 32) + 7, -(1 << 63)])
    pre = "".join(r.choice(["1.", "'a,", "t", "\"hi\",,", "z", "2kz", "#t1"]) for _ in range(r.randint(0, 4)))
    end = r.choice(["@", num(k) + "q", "q", num(k) + "q", "t@", "t" + num(k) + "q", "#@t" + num(k) + "q", "2k@1.", "3kq", "n q"])
    return Sc(n, pre + end + r.choice(["", "1.@", "<", "z" * 5 + "@"]), ticks=150, tag="ends")
def cores(r, n):
    """unknown cells and instructions that fail"""
    std = r.choice(["u93", "b93", "u98", "b98", "t98"])
    chars = [chr(c) for c in list(range(33, 127)) + [1, 7, 14, 127, 128, 200, 255] if chr(c) not in "=io"]
    code = ""
    for _ in range(r.randint(1, 3)):
        code += "".join(r.choice("12345") for _ in range(r.randint(0, 3))) + r.choice(chars)
    if "98" in std and r.random() < .3:   # a large cell value
        v = r.choice([300, 1000, -5, 256 + 43, 64 + 256, 1 << 32, (1 << 32) + 49])
        code = num(v) + ("" if std[0] == "u" else "") + "".join([num(40)] + (["0"] if std != "u98" else []) + (["0"] if std == "t98" else [])) + "p" + " " * 0
        code = code.ljust(40) + "z1"
    pre = "12" if r.random() < .5 else ""
    lead = r.choice(["", "#"])
    return Sc(n, pre + lead + code + r.choice(["", "@"]), opts=[STD[std]], ticks=25, inp=r.choice(INPUTS), tag="unknown " + std)
def fails(r, n):
    code = r.choice(["&", "~", "&&&", "~~~", "1}", "2u", "0}", strz("nofile") + "0" + vec([1, 1]) and vec([1, 1]) + "0" + strz("nofile") + "i",
                     vec([2, 2]) + vec([0, 0]) + "0" + strz("no/dir/f") + "o", "\"ABCD\"4(", "\"ABCD\"4)", "0(", "01-(", num(70) + "1(", "\"SYOT\"4)",
                     "\"UDOM\"4(\"UDOM\"4)H", "A", "Z", "\x80", "h", "1(", "9999" + "4)"])
    pre = "".join(num(small(r)) for _ in range(r.randint(0, 4)))
    return Sc(n, r.choice(["", "7"]) + pre + code + r.choice(["z1@", "2.@", ""]), ticks=60, inp=r.choice(["", "x", "5", "\n", "a1", "-"]), opts=[r.choice(["-std=be98", "-std=be98", "-std=tre98", "-std=une98"])],
              files={"f": b"x"}, tag="fails")

def sysinfo(r, n):
    dim = r.choice([1, 2, 2, 3])
    pre = "".join(r.choice(["1", "2{", "0{", "3{", num(r.randint(0, 900)), "t" if r.random() < .2 else "5", "'z" + vec([r.randint(-9, 80)] * dim) + "p", "1u"]) for _ in range(r.randint(0, 6)))
    k = r.choice([0, -1, -5] + list(range(1, 30)) + [40, 60, 100, 1000, 1 << 32, (1 << 32) + 3])
    args = [r.choice(["x", "abc def", "", "-g", "a=b", "longer argument"]) for _ in range(r.randint(0, 3))]
    env = [b"PATH=/bin", b"A="][:r.randint(0, 2)] + ([b"Zeta=1 2"] if r.random() < .5 else [])
    opts = [["-std=une98", "-std=be98", "-std=tre98"][dim - 1]] + [o for o in ["-fno-concurrent", "-fno-execute", "-fno-filesystem"] if r.random() < .25]
    return Sc(n, pre + num(k) + "y" + r.choice(["", ".", "n"]) + num(r.randint(1, 25)) + "y@", opts=opts, args=args, env=env, ticks=200, tag="y")

ALLFP = ["BASE", "BITW", "BOOL", "CPLI", "DIRF", "FING", "FISH", "FIXP", "FPDP", "FPSP", "FPRT", "FRTH", "HRTI", "IIPC", "JSTR", "MODE", "MVRS", "NFUN",
         "ORTH", "PERL", "REFC", "STRN", "SUBR", "TOYS", "MODU", "NULL", "ROMA", "TERM"]
LETTERS = dict(BASE="BHINO", BITW="ALNORX", BOOL="ANOX", CPLI="ADMOSV", DIRF="CMR", FING="XYZ", FISH="CDFHILMNORSTUV", FIXP="ABCDIJNOPQRSTUVX",
               FPDP="ABCDEFGHIKLMNPQRSTVXY", FPSP="ABCDEFGHIKLMNPQRSTVXY", FPRT="DFILS", FRTH="DLOPR", HRTI="EGMST", IIPC="ADGILP", JSTR="GP", MODE="HIQS",
               MVRS="BCFGJNP", NFUN="ABCDHILMRVXYZ", ORTH="AEGOPSVWXYZ", PERL="EIS", REFC="RD", STRN="ACDFGILMNPRSV", SUBR="ACJOR",
               TOYS="ABCDEFGHIJKLMNOPQRSTUVWXYZ", MODU="MRU", NULL="ABCDEFGHIJKLMNOPQRSTUVWXYZ", ROMA="CDILMVX", TERM="CDGHLSU")
SAFE_SEM = ["BITW", "BOOL", "FRTH", "MODU", "ROMA", "FIXP", "NULL", "MODE", "FISH", "ORTH", "HRTI", "REFC"]
def fploading(r, n):
    fps = r.sample(["BITW", "BOOL", "FRTH", "ROMA", "ORTH", "FISH", "MODU", "NULL", "REFC", "BASE", "CPLI"], r.randint(1, 3))
    code = "12"
    live = []
    for _ in range(r.randint(2, 9)):
        k = r.random()
        f = r.choice(fps)
        if k < .4:
            code += fpload(f)
        elif k < .6:
            code += fpload(f)[:-1] + ")"
        elif k < .9:
            code += r.choice(["3", "35", "", "n"]) + r.choice(LETTERS[f] if f in LETTERS else "AB")
        elif k < .93:
            code += "t"
        elif k < .97:
            code += r.choice(["0(", "01-(", "\"XXXX\"4(", "\"XXXX\"4)", "5(", "4)"])
        else:
            code += "$$"
    return line_wrap(r, n, code, tag="loading", ticks=250, opts=["-l" + r.choice(fps)] * r.choice([0, 0, 1, 2]))
def fing(r, n):
    fps = r.sample(["BITW", "BOOL", "FRTH", "ORTH", "REFC"], 2)
    code = "".join(fpload(f) for f in fps) + fpload("FING")
    for _ in range(r.randint(2, 7)):
        k = r.choice([("X", 2), ("Y", 1), ("Z", 2), ("X", 2), ("Z", 2)])
        for _ in range(k[1]):
            code += r.choice(["'" + r.choice("ALNORXEGDPWYZ"), num(r.randint(0, 25)), num(r.choice([-1, 26, 64, 91, 25, 90, 65, 0])) if r.random() < .3 else "'A"])
        code += k[0] + r.choice(["", "35A", "7N", "12O", "3L", "", fpload("FING"), "t"])
    return line_wrap(r, n, code, tag="FING", ticks=300)
def modes(r, n):
    a = list("><^vr[]123:\\$+{}u()wx_|#jt?z ") + list("HIQS") * 3 + list(r.choice(["", "x_|", "[]{}", "12:\\+", "{}u", "><^v"])) * 2
    w, h = r.choice([(8, 4), (14, 5), (30, 2)])
    pre = "".join(num(r.randint(0, 15)) for _ in range(r.randint(0, 6))) + r.choice(["", "H", "I", "Q", "S", "IQ", "HS"])
    return Sc(n, pre + rand_field(r, w, h, a), opts=["-std=be98", "-lMODE"] + ([r.choice(["-lTOYS", "-lFISH", "-lSUBR"])] if r.random() < .1 else []), ticks=100, tag="MODE")
def modes_line(r, n):
    code = "".join(num(r.randint(0, 15)) for _ in range(r.randint(0, 6)))
    for _ in range(r.randint(3, 12)):
        code += r.choice(list("HIQSIQ") + [":", "\\", "+", "-", "$", "2{", "1}", "1u", "02-u", "3", "5", "`", "01-{", "n", "12p"[:0] + "z", "[]", "5y", "\"ab\"", "'x", "1.", "30g", "t"])
    return line_wrap(r, n, code, opts=["-lMODE"] + (["-l" + r.choice(["FRTH", "BITW", "STRN"])] if r.random() < .2 else []), tag="MODE line", dim=r.choice([2, 2, 3, 1]))

# ---------------------------------------------------------------- fingerprints
def signature_ops(r, fp, dim, letters=None):
    """one instruction with plausible operands"""
    L = r.choice(letters or LETTERS[fp])
    def sv(k=dim):
        return vec([r.randint(-3, 6) for _ in range(k)])
    def sz(k=dim):
        return vec([r.choice([0, 1, 1, 2, 2, 3, -1, -2, -3]) for _ in range(k)])
    def pv(k=dim):
        return vec([r.randint(1, 3) for _ in range(k)])
    def s():
        return strz("".join(r.choice("abcAB 019-+.") for _ in range(r.choice([0, 1, 2, 3, 5]))))
    def i():
        return num(r.choice([0, 1, 2, 3, 4, 5, -1, -2, 9]))
    v = lambda: num(val(r))
    key = fp + L
    if fp in ("BITW", "BOOL"):
        return v() + ("" if L == "N" else (num(r.choice([0, 1, 2, 3, 8, 31, 32, 62, 63, 64, 65, -1])) if L in "LR" else v())) + L
    if fp == "BASE":
        if L == "N":
            return v() + num(r.choice([2, 3, 8, 10, 16, 32, 33, 36, 58, 60, 64, 85, 100, 256, 37, -1])) + "N"
        if L == "I":
            return num(r.choice([2, 8, 10, 16, 32, 33, 3, 0, 1])) + "I"
        return v() + L
    if fp == "CPLI":
        return (v() + v() if r.random() < .5 else i() + i()) + ("" if L in "OV" else (v() + v() if r.random() < .5 else i() + i())) + L
    if fp == "FIXP":
        if L == "D":
            return num(r.choice([0, 1, 5, 1000, 100000])) + "D"
        if L == "R":
            return num(r.choice([2, 3, -2, 10, 0, 1, -1, 7])) + num(r.choice([0, 1, 2, 3, 10, 20, 62, 63, -1, -2])) + "R"
        return v() + ("" if L in "BCIJNPQSTUV" else v()) + L
    if fp in ("FPDP", "FPSP"):
        def f():
            return r.choice([num(r.randint(-50, 50)) + "F", strz(r.choice(["1.5", "-0.25", "3.14159", "1e10", "0", "2", "-7.75", "1e-5", "100"])) + "R"])
        if L == "F":
            return v() + "F"
        if L == "R":
            return strz(r.choice(["1.5", "-2", "abc", "", "1e5x", " 3", "0.1", "12abc", "."])) + "R"
        return f() + (f() if L in "ASMDY" else "") + L
    if fp == "FPRT":
        if L == "I":
            return strz(r.choice(["%d", "<%5d>", "%x", "%-4d|", "%05d", "n"])) + num(r.choice([0, 1, -5, 42, 100000])) + "I"
        if L == "L":
            return strz(r.choice(["%ld", "<%8ld>", "%lx"])) + num(r.choice([0, 1, 7])) + num(r.choice([0, 1, 42, 100000])) + "L"
        if L == "S":
            return strz(r.choice(["%s", "<%6s>", "%-5s|", "x%sy"])) + s() + "S"
        return strz(r.choice(["%f", "%.2f", "<%8.3f>", "%g"])) + num(0) + L
    if fp == "FRTH":
        pre = "".join(num(r.randint(0, 99)) for _ in range(r.randint(0, 6)))
        return pre + (num(r.choice([0, 1, 2, 3, 5, 9, -1, -2, -4, 20])) if L in "LP" else "") + L
    if fp == "STRN":
        if L in "AC":
            return s() + s() + L
        if L == "F":
            t = "".join(r.choice("ab") for _ in range(r.randint(0, 3)))
            h = "".join(r.choice("ab") for _ in range(r.randint(0, 7)))
            return strz(t) + strz(h) + L
        if L in "DN":
            return s() + L
        if L == "V":
            return strz(r.choice(["12", "-7", "0", "abc", "", "12x", " 5", "+3", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999", "-", "007"])) + "V"
        if L == "G":
            return vec([r.randint(0, 6)] + [r.randint(3, 5)] * (dim - 1) if dim > 1 else [r.randint(0, 3)]) + "P"[:0] + "G" if r.random() < .0 else s() + sv() + "P" + sv() + "G"[:0]
        if L == "P":
            y = [r.randint(2, 4)] * (dim - 1)
            x = r.randint(-2, 9) if dim > 1 else r.randint(300, 310)
            return s() + vec([x] + y) + "P" + vec([x + r.randint(0, 1)] + y) + "G"
        if L in "LR":
            return s() + i() + L
        if L == "M":
            return s() + i() + i() + L
        if L == "S":
            return v() + L
        return L
    if fp == "JSTR":
        return "".join(i() for _ in range(3)) + vec([r.randint(-2, 3) for _ in range(dim)]) + vec([r.randint(-3, 9)] + [r.randint(2, 4)] * (dim - 1) if dim > 1 else [r.randint(200, 210)]) + num(r.choice([0, 1, 2, 3, 5, -1])) + L
    if fp == "ORTH":
        if L in "AEO":
            return v() + v() + L
        if L == "G":
            return num(r.randint(-2, 4)) + num(r.randint(-2, 20)) + "G"
        if L == "P":
            return v() + num(r.randint(1, 4)) + num(r.randint(-2, 20)) + "P"
        if L == "S":
            return s() + "S"
        return i() + L
    if fp == "TOYS":
        n = dim
        if L in "CKMV":
            y = [r.randint(1, 4)] * (dim - 1)
            return vec([r.randint(0, 12)] + [r.randint(0, 2) for _ in range(n - 1)]) + sz() + vec([r.randint(0, 12)] + [r.randint(1, 4) for _ in range(n - 1)] if n > 1 else [r.randint(300, 305)]) + L
        if L == "F":
            return "".join(num(r.randint(33, 90)) for _ in range(r.randint(0, 7))) + sz() + vec([r.randint(-2, 6)] + [r.randint(2, 4) for _ in range(n - 1)] if n > 1 else [300]) + "F"
        if L == "G":
            return sz() + sv() + "G"
        if L == "S":
            return num(r.randint(33, 90)) + sz() + vec([r.randint(-2, 6)] + [r.randint(2, 4) for _ in range(n - 1)] if n > 1 else [300]) + "S"
        if L in "JO":
            return num(r.choice([0, 1, -1, 2, -3])) + L
        if L == "T":
            return i() + num(r.choice([0, 1, 2, 3, -1, 4, 1 << 32])) + "T"
        if L == "W":
            return num(r.choice([32, 48, 65])) + sv() + "W"
        if L == "A":
            return v() + num(r.choice([0, 1, 2, 5, -1])) + "A"
        if L == "H":
            return v() + num(r.choice([0, 1, 3, 31, 62, 63, -1, -2, -31, -63])) + "H"
        if L in "EP":
            return r.choice(["", i() + i(), v() + v() + v()]) + L
        return r.choice(["", v(), v() + v()]) + L
    if fp == "SUBR":
        if L in "AO":
            return L
        if L == "J":
            return sv() + L
        if L == "C":
            return "".join(i() for _ in range(r.randint(0, 3))) + sv() + num(r.randint(0, 3)) + L
        return sv() + sv() + "".join(i() for _ in range(2)) + num(r.randint(0, 3)) + L
    if fp == "FING":
        return "".join("'" + r.choice("ABCXYZ") for _ in range(1 if L == "Y" else 2)) + L
    if fp == "DIRF":
        return strz(r.choice(["d", "e", "d/x", "..", "nofile", "f", "", "."])) + L
    if fp == "REFC":
        return sv() + "RD" if L == "R" else i() + "D"
    if fp == "IIPC":
        return i() + i() + L
    if fp == "MVRS":
        def nm():
            return strz(r.choice(["p.b98", "x", "y", "zz"]))
        if L == "B":
            return strz(r.choice(["x", "y", "p.b98"])) + num(r.choice([0, 0, 1 << 13, 1, 3 << 14, 1 << 14])) + num(r.choice([0, 1, 2, 0, 3])) + num(r.choice([0, 0, 1, 2, 3])) + "B"
        if L == "J":
            return nm() + "J"
        if L == "G":
            return nm() + vec([r.randint(0, 9), r.randint(0, 2), 0]) + vec([r.choice([1, -1, 0, 1]), 0, 0]) + "G"
        if L == "F":
            return nm() + "F"[:0] + sv(dim) + vec([r.randint(0, 5), r.randint(0, 2), 0]) + vec([r.randint(0, 3) for _ in range(dim)]) + "F"
        if L == "P":
            return nm() + sv(3) + sv(dim) + vec([r.randint(0, 3) for _ in range(dim)]) + "P"
        return L
    if fp == "PERL":
        return strz(r.choice(["5", "2+3", "42", "print 7"])) + L if L != "S" else "S"
    if fp == "NFUN":
        return (i() if r.random() < .5 else "") + (num(r.choice([0, 1, 2, 3, 4, 5, -1, 64])) if L in "XYZ" else "") + L
    if fp == "MODU":
        return v() + v() + L
    return r.choice(["", i(), v(), v() + v()]) + L

def fp_family(fp, letters=None, cnt=(1, 4)):
    def fam(r, n):
        dim = r.choice([2, 2, 2, 3, 3, 1])
        if fp in ("MVRS", "NFUN"):
            dim = r.choice([2, 3])
        vd = 6 if fp == "NFUN" else 3
        code = ""
        for _ in range(r.randint(*cnt)):
            if r.random() < .25:
                code += "".join(num(val(r) if fp not in ("TOYS", "JSTR", "SUBR", "MVRS") else small(r)) for _ in range(r.randint(0, 4))) + r.choice(letters or LETTERS[fp])
            else:
                code += signature_ops(r, fp, dim, letters)
            code += r.choice(["", "", "", ".", ":", "z", "1", "n" if r.random() < .3 else ""])
        pre = fpload(fp) + r.choice(["", "n", "$$"])
        opts = []
        if r.random() < .4 or len(code) > 200:
            pre, opts = "", ["-l" + fp]
        if r.random() < .12 and fp not in ("MODE", "REFC"):
            opts.append("-lMODE")
            pre = r.choice(["I", "Q", "IQ", "H", "S"]) + pre if opts[0] != "-lMODE" else pre
        if r.random() < .1:
            code = "2{" + code
        if r.random() < .1 and fp not in ("MVRS",):
            code = code + "t"
        code = pre + code
        dirs = "><v^" if dim > 1 and len(code) < 150 else "><"
        body = lay(code, r, dirs)
        if r.random() < .3 and dim > 1:
            body += "\nabcdefgh\nABCDEFGH\n12345678"
        return Sc(n, body, opts=[["-std=une98", "-std=be98", "-std=tre98"][dim - 1]] + opts, ticks=350, vd=vd, ms=6000,
                  inp=r.choice(["", "12 ff 101\n", "hello\nworld\n", "zz 7", "  Xy 1", "\n"]), files={"d/": b"", "f": b"abc\n"}, tag=fp + " line")
    return fam
def fp_soup(fp, ticks=120):
    def fam(r, n):
        dim = r.choice([2, 2, 3])
        a = list("0123456789:$\\") + list(LETTERS[fp]) * r.choice([1, 2, 3]) + list("><^v") + list(r.choice(["", "{}", "\"", "tz", "gp", "#j", "r[]", "k"]))
        w, h = r.choice([(8, 4), (14, 4), (20, 3)])
        code = rand_field(r, w, h, a, pages=r.randint(1, 2) if dim == 3 else 1)
        pre = "".join(num(small(r)) for _ in range(r.randint(0, 5)))
        return Sc(n, pre + code, opts=["-std=be98" if dim == 2 else "-std=tre98", "-l" + fp], ticks=ticks, vd=6 if fp == "NFUN" else 3, ms=6000,
                  inp=r.choice(INPUTS), files={"d/": b"", "f": b"abc\n"}, tag=fp + " soup")
    return fam
def multi_fp(r, n):
    fps = r.sample(["BITW", "BOOL", "FRTH", "FISH", "MODE", "ORTH", "REFC", "STRN", "TOYS", "SUBR", "JSTR", "IIPC", "FING", "BASE", "CPLI", "FIXP", "HRTI"], r.randint(2, 4))
    letters = "".join(LETTERS[f] for f in fps)
    a = list("0123456789:$\\><^v{}ur#tz[]gp\"") + list(letters)
    code = rand_field(r, *r.choice([(10, 4), (20, 4), (30, 3)]), a)
    pre = "".join(num(small(r)) for _ in range(r.randint(0, 5)))
    return Sc(n, pre + code, opts=["-std=be98"] + ["-l" + f for f in fps], ticks=120, inp=r.choice(INPUTS), tag="multi " + " ".join(fps))

# ---------------------------------------------------------------- ><> and *><>
FISH = "0123456789abcdef><v^\\/|_#x!?.+-*,%=)('\":~$@l{}r[]oni&gp;  "
STAR = FISH + "`CRuOIDhms"
def fish_soup(r, n, star=False):
    base = list(STAR if star else FISH)
    a = base + list(r.choice(["0123456789", "><v^", "/\\|_#", "[]{}@$:", "123+-*,%", "`uO" if star else "l", "CRID" if star else "&", "&&12", "onl"])) * 3
    if r.random() < .6:
        a = [c for c in a if c not in ";"]
    if r.random() < .6:
        a = [c for c in a if c not in "'\""]
    if r.random() < .5:
        a = [c for c in a if c not in "."]
    if star:
        a = [c for c in a if c not in "hms"] if r.random() < .7 else a
    w, h = r.choice([(6, 3), (10, 5), (16, 4), (30, 2)])
    pre = "".join(r.choice("123456789") for _ in range(r.randint(2, 14)))
    return Sc(n, pre + rand_field(r, w, h, a), name="p.sf" if star else "p.fish", ticks=100, inp=r.choice(["", "ab", "\n", "hello\n", "\xff\x80"]), tag="starfish soup" if star else "fish soup",
              opts=[r.choice(["-std=sfish", "-std=sfish"] if star else ["-std=fish"])] if r.random() < .3 else [])
def fish_line(r, n, star=False):
    pool = ["+", "-", "*", ",", "%", "=", "(", ")", "?", "!", ":", "~", "$", "@", "l", "{", "}", "r", "1[", "2[", "0[", "]", "[", "n", "o", "i", "&", "&5&", "12.", "10p"[:0] + "50g", "'ab'", "\"x y\"", "1n", "52,n",
            "62,1+n", "13,:*n", "03-", "ll", "a5p", "9f2p"[:0] + "z"[:0] + "7", "1?2", "0?2"]
    if star:
        pool += ["I", "D", "C", "R", "u123O", "`", "1S", "l[ID", "1[D5I]", "1[D1[", "D5C"[:1], "12C"[:0] + "u+O"]
    code = "".join(r.choice("0123456789abcdef") for _ in range(r.randint(1, 8)))
    for _ in range(r.randint(3, 14)):
        code += r.choice(pool) + r.choice(["", "", "3", "52"])
    code += ";"
    if r.random() < .3:
        code = "v\n" + "\n".join(code)
    elif r.random() < .2:
        code = "<" + code[::-1]
    return Sc(n, code, name="p.sf" if star else "p.fish", ticks=150, inp=r.choice(["", "xyz", "1\n"]), tag="starfish line" if star else "fish line")
def star_soup(r, n):
    return fish_soup(r, n, True)
def star_line(r, n):
    return fish_line(r, n, True)
def fish_errors(r, n):
    op = r.choice(list("+-*,%=)(:~$@{}?.gpon[]&lri;!") + ["z", "A", "k", "y", "q", "`", "C", "R", "I", "D", "u", "O", "F", "S", "h"])
    depth = r.choice([0, 1, 2, 3])
    star = r.random() < .4
    return Sc(n, "".join(r.choice("0123") for _ in range(depth)) + op + r.choice(["1n;", ";", "ln;"]), name="p.sf" if star else "p.fish", ticks=60, inp=r.choice(["", "q"]), tag="fish errors")
def star_call(r, n):
    """a subroutine reached by C, returning by R"""
    y = r.randint(1, 3)
    x = r.randint(0, 5)
    main = "".join(r.choice("123") for _ in range(r.randint(0, 3))) + "%d%dC" % (x, y) + r.choice(["", "n"]) + ("%d%dC" % (x, y) if r.random() < .5 else "") + "ln;"
    sub = " " * (x + 1 if r.random() < .9 else x) + r.choice(["12+R", "1R", ":R", "~R", "l R", "7u>+OR", "4`R\n`", "6[R", "R", "5&&R", "1[5]R"])
    code = main + "\n" * y + sub
    return Sc(n, code, name="p.sf", ticks=120, tag="starfish call")
def star_file(r, n):
    name = r.choice(["f", "g", "nosuch", "d/f"])
    mk = "".join("'%s'" % c for c in name)
    code = r.choice(["", "7"]) + mk + "%dF" % len(name) + "i" * r.randint(0, 4) + r.choice(["", "'hey'"]) + r.choice(["0F", "1F", "2F", "3F", "lF", ""]) + r.choice(["", "in", mk + "%dFi" % len(name)]) + r.choice(["ln;", ";"])
    return Sc(n, code, name="p.sf", ticks=150, files={"f": b"ab\ncd", "d/": b"", "d/f": b"x"}, inp="qrs", opts=["-fno-filesystem"] if r.random() < .15 else [], tag="starfish file")
def star_dive(r, n):
    a = list("uO`><v^+1~l/\\|_#  ") + list("uO")
    return Sc(n, "123" + rand_field(r, *r.choice([(8, 4), (12, 3)]), a), name="p.sf", ticks=80, tag="starfish dive")

# ---------------------------------------------------------------- loading
def textfile(r, vt=False):
    out = ""
    for _ in range(r.randint(1, 14)):
        out += r.choice(["1", "z", ">", "  ", "ab", "v", "\t", "\xe9", "\x00", "@", "x1"])
        if r.random() < .45:
            out += r.choice(["\n", "\n", "\r", "\r\n", "\n\n", "\r\r\n", "\f", "\f\n", "\n\f", "\f\f", "\r\f\r\n"] + (["\v", "\n\v\n", "\v\f"] if vt else []))
    return out
def loading(r, n):
    std = r.choice([[], [], ["-std=be98"], ["-std=tre98"], ["-std=une98"], ["-std=be93"], ["-std=une93"]])
    vt = r.random() < .3 and not std
    return Sc(n, textfile(r, vt).encode("latin-1"), opts=std + (["-fcells=char"] if r.random() < .15 else []), name=r.choice(["p.b98", "p", "q.bf", "dir.x/p.b98", "p.txt"]),
              ticks=20, vd=4 if vt else 3, tag="text", files={"dir.x/": b""})
def beq(r, n):
    out = []
    if r.random() < .7:
        out.append("Dimensions %d" % r.choice([1, 2, 3, 4, 2, 3]))
    for _ in range(r.randint(1, 3)):
        k = r.randint(1, 3)
        head = "Origin " + ":".join(str(r.randint(-3, 5)) for _ in range(r.choice([1, 2, 3, 2])))
        if r.random() < .3:
            head += ",Coord " + ":".join(str(r.randint(-1, 2)) for _ in range(r.choice([1, 1, 2])))
        head += ",Lines %d" % k
        if r.random() < .2:
            head = "Lines %d,%s" % (k, head.replace(",Lines %d" % k, ""))
        out.append(head)
        for _ in range(k):
            out.append("".join(r.choice("12z>v<^ @ab") for _ in range(r.randint(0, 8))))
    if r.random() < .3:
        out.insert(0, r.choice(["# comment", "", "Nothing here"]))
    return Sc(n, "\n".join(out) + r.choice(["", "\n"]), name="p.beq", ticks=25, vd=5, tag="beq", opts=[["-std=be98"], [], [], ["-std=tre98"]][r.randint(0, 3)])
def lib_direct(r, n):
    out = []
    for L in sorted(r.sample("ABCDEZ", r.randint(1, 3))):
        out.append("=" + L)
        for _ in range(r.randint(1, 3)):
            out.append("".join(r.choice("12z>v<^ @") for _ in range(r.randint(0, 6))))
    if r.random() < .3:
        out.insert(0, "first lines 12z@")
    return Sc(n, "\n".join(out), name="p.fl", ticks=20, vd=3, tag="fl")
def fmv(r, n):
    files = {}
    names = []
    for k in range(r.randint(1, 3)):
        nm = r.choice(["a", "b", "c"]) + r.choice([".b98", ".bf", ".fish"])
        names.append(nm)
        files[nm] = {"b98": "1.2.z@", "bf": "34.z.@", "fish": "12+n;"}[nm.split(".")[1]].encode()
        if r.random() < .6:
            files[nm] = "".join(r.choice("123z.:,$") for _ in range(r.randint(1, 9))).encode() + (b";" if nm.endswith("fish") else b"@")
            if nm.endswith("fish"):
                files[nm] = files[nm].replace(b"z", b"").replace(b".", b"n").replace(b",", b"")
            if nm.endswith("bf"):
                files[nm] = files[nm].replace(b"z", b"1")
    lines = []
    for nm in names:
        lines.append(nm + r.choice(["", "", " x", " arg1 arg2"]))
        if r.random() < .2:
            lines.append("")
    d = r.choice(["", "", "sub/"])
    fs = {d + k: v for k, v in files.items()}
    fs[d + "m.fmv"] = ("\n".join(lines) + r.choice(["", "\n"])).encode()
    if d:
        fs["sub/"] = b""
    return Sc(n, None, name=d + "m.fmv", files=fs, ticks=100, tag="fmv", opts=r.choice([[], ["-std=be98"]]), args=r.choice([[], ["zz"]]))

# ---------------------------------------------------------------- files
def content(r):
    return "".join(r.choice(["a", "B", " ", "  ", "\n", "\r\n", "\r", "xyz", "\t", "\xf0", "\x00", "\f" if r.random() < .3 else "q"]) for _ in range(r.randint(0, 14))).encode("latin-1")
def file_in(r, n):
    dim = r.choice([2, 2, 3, 1])
    nm = r.choice(["f", "f", "g", "nosuch", "d", "d/h", "./f"])
    y = [r.randint(2, 5)] + [r.randint(0, 1)] * (dim - 2) if dim > 1 else []
    v = vec([r.randint(-3, 9) if dim > 1 else r.randint(100, 110)] + y)
    code = (r.choice(["", "2{"]) + v + num(r.choice([0, 1, 0, 1, 2, 3])) + strz(nm) + "i") * r.choice([1, 1, 2])
    opts = [["-std=une98", "-std=be98", "-std=tre98"][dim - 1]] + (["-fno-filesystem"] if r.random() < .15 else []) + (["-fcells=char"] if r.random() < .1 else [])
    return Sc(n, code + "@", opts=opts, files={"f": content(r), "g": content(r), "d/": b"", "d/h": b"h!"}, ticks=150, tag="i")
def file_out(r, n):
    dim = r.choice([2, 2, 3, 1])
    nm = r.choice(["f", "out", "d/out", "nodir/x", "d", "./out"])
    size = [r.randint(1, 9), r.randint(1, 4)] + [r.randint(0, 1)] * (dim - 2)
    if r.random() < .1:
        size = [r.choice([0, -2, 3]), r.choice([1, 0, -1])] + [0] * (dim - 2)
        if size[0] <= 0:
            size = [r.randint(1, 3), 1] + [0] * (dim - 2)
    org = [r.randint(-3, 9), r.randint(-1, 4)] + [r.randint(0, 1)] * (dim - 2)
    extra = "".join(num(r.choice([33, 65, 200, 300, -3, 32, 10])) + vec([r.randint(-2, 8), r.randint(0, 3)][:dim] + [0] * (dim - 2)) + "p" for _ in range(r.randint(0, 3))) if dim == 2 else ""
    code = r.choice(["", "", "2{"]) + extra + vec(size[:dim]) + vec(org[:dim]) + num(r.choice([0, 1, 0, 1, 2, 3])) + strz(nm) + "o" + r.choice(["", "z1"])
    body = code + "@\n" + "\n".join("".join(r.choice("ab  Z") for _ in range(r.randint(0, 12))) for _ in range(3))
    opts = [["-std=une98", "-std=be98", "-std=tre98"][dim - 1]] + (["-fno-filesystem"] if r.random() < .15 else [])
    return Sc(n, body, opts=opts, files={"f": b"old content\n", "d/": b""}, ticks=200, tag="o")
def file_round(r, n):
    """write a region, read it back elsewhere"""
    w, h = r.randint(1, 6), r.randint(1, 3)
    code = vec([w, h]) + vec([r.randint(0, 3), 1]) + num(r.choice([0, 1])) + strz("x") + "o" + vec([r.randint(0, 9), 5]) + num(r.choice([0, 1])) + strz("x") + "i@"
    return Sc(n, code + "\n" + "\n".join("".join(r.choice("ab  Z") for _ in range(r.randint(0, 12))) for _ in range(4)), files={}, ticks=200, tag="io")

def options(r, n):
    pool = ["-std=be98", "-std=be93", "-std=tre98", "-std=une98", "-std=une93", "-std=fish", "-std=sfish", "-ftopo=torus", "-ftopo=lahey", "-fstrings=c", "-fstrings=sgml", "-fstrings=multispace",
            "-fcells=char", "-fcells=int", "-fno-concurrent", "-fconcurrent", "-fno-execute", "-fexecute", "-fno-filesystem", "-ffilesystem", "-finvert-hl", "-lTOYS", "-lXXXX", "-lSTRN",
            "-fthreads=funge", "-fwhat", "-x", "-"]
    bad = ["-std=be99", "-std=", "-std", "-ftopo=flat", "-ftopo=", "-fstrings=d", "-fcells=long", "-fthreads=x", "-ftopo", "-fstrings", "-fcells", "-fthreads"]
    opts = [r.choice(pool) for _ in range(r.randint(0, 5))]
    if r.random() < .25:
        opts.insert(r.randint(0, len(opts)), r.choice(bad))
    name = r.choice(["p.b98", "p.b98", "p.b98", "nosuch.b98", "dir", "p.bf", "p.fish"])
    code = r.choice(["1t2.@", "5.@", "\"  a\"z@", "t@", "'\xffz@", vec([1, 1]) + "0" + strz("f") + "i@", strz("touch made") + "=@", strz("exit 3") + "=.@", "12 h z@",
                     vec([1, 1]) + vec([0, 0]) + "0" + strz("w") + "o@", "\"lrep\"" + fpload("PERL") + strz("2+3") + "I.@", "1y.@", "12+;", "1n;"])
    files = {name: code.encode("latin-1")} if name not in ("nosuch.b98", "dir") else {}
    files["dir/"] = b""
    files["f"] = b"file"
    return Sc(n, None, name=name if r.random() < .95 else None, opts=opts, files=files, ticks=120, args=r.choice([[], ["-fno-concurrent"], ["x"]]), tag="options")
def caps(r, n):
    no = [o for o in ["-fno-concurrent", "-fno-execute", "-fno-filesystem"] if r.random() < .6]
    code = "12" + r.choice(["t3.@", vec([1, 1]) + "0" + strz("f") + "iz@", strz("touch made") + "=z.@", strz("exit 3") + "=.@", vec([2, 1]) + vec([0, 0]) + "0" + strz("w") + "oz@",
                            fpload("PERL") + strz("2+3") + "I.@", fpload("PERL") + strz("7") + "Ez@", "1y.@", strz("echo hi") + "=.1.@", "1.2." + strz("echo hi") + "=.3.@", "t" + strz("false") + "=.@", strz("") + "=.@"])
    if r.random() < .15:
        return Sc(n, "1'f'1F" + "ii;", name="p.sf", opts=no, files={"f": b"file"}, ticks=60, tag="caps sf")
    return Sc(n, code, opts=no, files={"f": b"file"}, ticks=100, tag="caps")

# ---------------------------------------------------------------- pointers and universes
def iipc(r, n):
    a = list("01223tz:.>>") + list("ADGILP") * 2
    pre = r.choice(["t", "tt", "1t", "5t", "3kt", ""])
    code = pre + "".join(r.choice(["0", "1", "2", "7", "t", "I", "A", "I.", "A.", "0G", "1G", "0L", "1L", "51P", "60P", "81P", "D", "z", "zz", "2G", "9L", "1.", "n", "2{", "@", ":"]) for _ in range(r.randint(4, 16)))
    if r.random() < .5:
        return Sc(n, code + r.choice(["@", "<", ""]), opts=["-std=be98", "-lIIPC"], ticks=120, tag="IIPC")
    return Sc(n, code + "\n" + rand_field(r, 12, 3, a + list("^v<")), opts=["-std=be98", "-lIIPC"], ticks=120, tag="IIPC soup")
def iipc_dorm(r, n):
    """a child that sleeps until the parent changes its stack"""
    child = r.choice(["D1.", "5D.", "12DD3.", "D+.", "2{D1}", "nD."]) + r.choice(["@", "D@"])
    parent = "z" * r.randint(0, 4) + r.choice(["71P", "1G", "1L", "0L", "9" + "1P1.", "1G.1G.", "71P82P", "zzz"]) + "zz" + r.choice(["41P", "1G", ""]) + "z@"
    row = child[::-1] + "t" + parent
    code = " " * len(child) + "v\n" + " " * (len(child)) + ">"[:0] + row
    code = "#" + "" + "" if False else (">" + parent if False else row)
    # start: jump over the child code to t
    return Sc(n, num(len(child) + len(num(len(child))) * 0) + "j" + " " * 0 + child[::-1] + "t" + parent, opts=["-std=une98", "-lIIPC"], ticks=120, tag="IIPC dormant")
def mvrs(r, n):
    code = ""
    for _ in range(r.randint(2, 5)):
        code += signature_ops(r, "MVRS", 2) + r.choice(["", "", "C.", "N", "z", "n"])
    return Sc(n, code + "@\n" + "abcdef\nghijkl", opts=["-std=be98", "-lMVRS"], ticks=400, tag="MVRS")
def mvrs_travel(r, n):
    """two programs; one visits the other"""
    tgt = r.choice(["b.b98", "a.b98", "nosuch"])
    a = r.choice(["1.", "z", ""]) + r.choice([strz(tgt) + "J", strz(tgt) + vec([r.randint(0, 4), r.randint(0, 1), 0]) + vec([1, 0, 0]) + "G",
                  vec([1, 1]) [:0] + strz(tgt) + vec([r.randint(0, 3), r.randint(0, 2)]) + vec([0, 0, 0]) + vec([r.randint(0, 5), r.randint(0, 1)]) + "F",
                  strz(tgt) + vec([0, r.randint(1, 2), 0]) + vec([0, 0]) + vec([r.randint(0, 5), r.randint(0, 1)]) + "P"]) + "z1.2.zz@"
    b = "z" * r.randint(0, 3) + "1.2.3." + "z" * r.randint(0, 30) + "4.@"
    order = [("a.b98", a), ("b.b98", b)]
    if r.random() < .5:
        order.reverse()
    fs = {k: v.encode("latin-1") + b"\nzzzz5.6.@\n" for k, v in order}
    fs["m.fmv"] = "\n".join(k for k, _ in order).encode()
    return Sc(n, None, name="m.fmv", files=fs, opts=["-std=be98", "-lMVRS"], ticks=300, tag="MVRS travel")

# ---------------------------------------------------------------- libraries
def lib_real(r, n):
    fp = r.choice(["MODU", "ROMA", "NULL", "TERM", "MODU"])
    code = ""
    for _ in range(r.randint(1, 3)):
        L = r.choice(LETTERS[fp])
        code += "".join(num(val(r) if r.random() < .5 else small(r)) for _ in range(r.randint(0, 3))) + r.choice(["", "", "3k", "t" if r.random() < .2 else ""]) + L + r.choice(["", ".", ":", "z"])
    return line_wrap(r, n, fpload(fp) + r.choice(["", "n"]) + code, tag="lib " + fp, ticks=500, opts=["-lMODE"] if r.random() < .0 else [])

def life(r, n):
    """pointers that begin, end, quit and change universes; each program ends unless another one's quit is needed"""
    names = ["a.b98", "b.b98", "c.b98"][:r.choice([1, 1, 2, 2, 2, 3])]
    def piece():
        k = r.random()
        if k < .35: return "z" * r.randint(1, 4)
        if k < .5: return r.choice(["1.", "'a,", "2kz", "n", "12+."])
        if k < .65: return r.choice(["t", "tt", "#t", "2kt", "3kt"])
        if k < .85 and len(names) > 1:
            t = r.choice(names)
            return strz(t) + r.choice(["J", vec([r.randint(0, 12), 1, 0]) + vec([r.choice([1, 1, -1]), 0, 0]) + "G", vec([0, r.randint(1, 2), 0]) + vec([0, 0]) + vec([r.randint(0, 5), r.randint(0, 1)]) + "P"])
        return r.choice(["z", "z", "@", num(r.choice([0, 3, 7, 255])) + "q", "t@", "#@t", "k@", "2k" + "@"])
    fs = {}
    for k, nm in enumerate(names):
        rows = ["".join(piece() for _ in range(r.randint(1, 6))) + r.choice(["@", "@", "@", num(r.choice([0, 1, 9, 300])) + "q", "@"]),
                "".join(r.choice(["z", "z", "1.", "t", "@", "zz"]) for _ in range(r.randint(3, 12))) + r.choice(["@", "@", "4q", "zzzz@"])]
        if len(names) > 1 and r.random() < .12:
            rows[0] = "z" * r.randint(0, 5) + ">" + "z" * r.randint(1, 9) + "<"    # never ends
        fs[nm] = "\n".join(rows).encode("latin-1") + b"\nzzz5.@\n"
    fs["m.fmv"] = "\n".join(names).encode()
    if len(names) == 1 and r.random() < .6:
        return Sc(n, None, name="a.b98", files=fs, ticks=150, tag="life")
    return Sc(n, None, name="m.fmv", files=fs, opts=["-std=be98", "-lMVRS"], ticks=200, tag="life")

# ---------------------------------------------------------------- the debugger
def dvec(r, dim=2, mal=.06):
    if r.random() < mal:
        return r.choice(["", "foo", "(", "(1", "1,2", "()", "(,3)", "(-,2)", "(1 2)", "( 3 , -1 )", "(1,2)x", "(1,2)(3)", "((1,1)", "(x,1)", ")", "(--2,1)", "(1-2)", "(0,0,0)", "(2,0,0,0)"])
    n = r.choice([dim, dim, dim, 1, 2, 3])
    sp = r.choice(["", "", " "])
    return "(" + ",".join(sp + str(r.choice([r.randint(0, 6)] * 6 + [0, 1, -1, 12])) for _ in range(n)) + ")"
def dcmd(r, dim=2, names=(), at=()):
    v = lambda: r.choice(list(at)) if at and r.random() < .5 else dvec(r, dim)
    size = lambda: r.choice(["", "", " (1,1)", " (2,0)", " (0,0)", " (-1,2)", " (4)", " (2,1,1)", " foo"])
    dims = lambda: r.choice(["", "", " (0,1)", " (1,0)", " (0,2)" if dim > 2 else " (0,1)", " (0,0)", " (0,17)", " (-1,1)", " (1)", " (x)"])
    k = r.random()
    if k < .3:
        return r.choice(["s", "step", "stp"])
    if k < .36:
        return r.choice(["r", "c", "run", "continue", "con"])
    return r.choice([
        lambda: "p", lambda: "peek", lambda: "p %d" % r.randint(-1, 5), lambda: "peek %d %d" % (r.randint(0, 4), r.randint(-1, 3)), lambda: "p " + r.choice(["x", "1 x", "+2", "- 1", "1 -", "99999999999"]),
        lambda: "d", lambda: r.choice(["dir", "delta"]), lambda: "storage", lambda: "pos", lambda: "position", lambda: "t", lambda: "thread %d" % r.randint(0, 5), lambda: "t " + r.choice(["x", "0", "1", "2", "-1", "+1", " 1", "7"]),
        lambda: "bt", lambda: "backtrace", lambda: "setdelta " + r.choice(["(1)", "(-1)", "(0,1)", "(1,1)", "(2)", "(0,-1)", "(1,0,0)", dvec(r, dim)]), lambda: "setpos " + v(),
        lambda: "get " + v() + size() + dims(), lambda: "g" + r.choice(["", " ", " " + v()]), lambda: "list" + size() + dims(), lambda: "l",
        lambda: r.choice(["break ", "bp ", "bp "]) + v(), lambda: "bp", lambda: r.choice(["watch ", "wp "]) + v(), lambda: "wp " + v(), lambda: "read " + v(), lambda: "read",
        lambda: "u", lambda: "universe " + (r.choice(list(names)) if names else "p.b98"), lambda: "u nosuch",
        lambda: r.choice(["", " ", "help", "x", "stepp", "  s", "\tp", "\ts ", "S", "print 1", "q1", "r\r"]),
    ])()
def script(r, n, dim=2, names=(), at=(), end=None):
    cs = [dcmd(r, dim, names, at) for _ in range(n)]
    end = end or r.choice(["", "", "r", "r\nr", "q", "quit"])
    t = "\n".join(cs + ([end] if end else []))
    return t + r.choice(["\n", "\n", ""])
def debugged(r, s, n, names=(), at=(), end=None):
    dim = 1 if b"une" in b"".join(s.argv) else 3 if b"tre" in b"".join(s.argv) else 2
    t = script(r, n, dim, names, at, end)
    if r.random() < .3:           # commands, then input for the program
        t += "\n" + r.choice(INPUTS)
    s.argv = [b"-g"] + s.argv
    s.inp = t.encode("latin-1")
    s.tag = "debug " + s.tag
    s.ticks = min(s.ticks, 120)
    return s
def debug_any(r, n):
    base = r.choice([soup_any, soup_any, concurrent, conc_struct, ends, cores, fish_soup, star_soup, fish_line, modes, blocks, strings, flow98, flow_k, loading])
    return debugged(r, base(r, n), r.choice([1, 3, 8, 15, 30, 60]))
def debug_points(r, n):
    """break points, watched stores and stepping in a program that stores to few places"""
    pts = [(r.randint(0, 9), r.randint(0, 3)) for _ in range(3)]
    code = ""
    for _ in range(r.randint(2, 6)):
        x, y = r.choice(pts)
        code += r.choice(["'%s%s%sp" % (r.choice("abcXYZ z"), num(x), num(y)), "%s%s%sp" % (num(r.choice([65, 300, -1, 32, 10])), num(x), num(y)), "'as ", "1", ".", ":", "z", "2{", "0}", "t", "A", "3kz", "2k+"])
    rows = [code[:14].ljust(15) + "v", "@" + code[14:28][::-1].rjust(14) + "<"]
    at = ["(%d,%d)" % p for p in pts] + ["(%d)" % r.randint(0, 14), "(%d,1)" % r.randint(1, 15)]
    s = Sc(n, "\n".join(rows), opts=["-std=be98"], ticks=200, tag="points")
    pre = "".join(r.choice(["bp ", "wp ", "wp ", "bp "]) + r.choice(at) + "\n" for _ in range(r.randint(1, 4)))
    debugged(r, s, r.choice([0, 2, 6, 15]), at=at)
    body = s.inp.decode("latin-1") if r.random() < .6 else "".join(r.choice(["r", "c", "s", "bt", "t", "l (2,1)", "p", "read " + r.choice(at)]) + "\n" for _ in range(r.randint(3, 25)))
    s.inp = (pre + body).encode("latin-1")
    return s
def debug_dbug(r, n):
    code = fpload("DBUG")
    for _ in range(r.randint(2, 6)):
        code += r.choice(["B", "E", "D", "%s%sA" % (num(r.randint(10, 40)), num(0)), "%s%sW" % (num(r.randint(0, 5)), num(r.choice([0, 1]))), "'%s%s%sp" % (r.choice("abc "), num(r.randint(0, 5)), num(1)),
                          "z", "1.", "t", "EB", "2kB", "C", "3kz", "2{B"])
    s = line_wrap(r, n, code, tag="DBUG", ticks=200)
    if r.random() < .5:
        return debugged(r, s, r.choice([1, 4, 12, 30]))
    s.inp = script(r, r.choice([1, 4, 12]), 2).encode("latin-1")
    return s
def debug_multi(r, n):
    base = r.choice([mvrs_travel, mvrs_travel, fmv, lib_real, dbug_travel])
    s = base(r, n)
    names = [x for x in s.files if not x.endswith("/")] + [x + ".1" for x in s.files][:1]
    return debugged(r, s, r.choice([3, 10, 25, 50]), names=names)
def dbug_travel(r, n):
    ld = fpload("DBUG")
    a = ld + strz("b.b98") + r.choice(["J", vec([r.randint(0, 4), 1, 0]) + vec([1, 0, 0]) + "G"]) + "zB1.@"
    b = "z" * r.randint(5, 40) + "1.@"
    fs = {"a.b98": a.encode("latin-1") + b"\nzzzzzz\n", "b.b98": b.encode() + b"\nzzzzB5.31AzzB6W@\n", "m.fmv": b"a.b98\nb.b98\n"}
    return Sc(n, None, name="m.fmv", files=fs, opts=["-std=be98", "-lMVRS"], ticks=300, tag="DBUG travel")

def timer(r, n):
    code = fpload("HRTI") + "n"
    for _ in range(r.randint(3, 14)):
        code += r.choice(["M", "M", "E", "T.", "T.", "T", "S.", "G.", "z", "zzz", "M1kT.", "3kz", "t", "{", "}"] if r.random() < .5 else ["M", "T.", "E", "T"])
    return Sc(n, lay(code, r, "><"), opts=r.choice([[], ["-lHRTI"], ["-lMODE"]]), ticks=250, tag="timer")
def perl(r, n):
    code = r.choice([fpload("PERL") + "n", ""])
    opts = [] if code else ["-lPERL"]
    if r.random() < .25:
        opts.append(r.choice(["-fno-execute", "-fexecute"]))
    for _ in range(r.randint(1, 4)):
        if r.random() < .15:
            code += "S."
            continue
        if r.random() < .3:
            code += num(small(r))
        c = r.choice([str(r.randint(1, 300)), str(r.choice([1, 9, 127, 128, 255, 256, 257, 511, 1000])), "%d+%d" % (r.randint(1, 200), r.randint(1, 200)), "print %d" % r.randint(1, 99)])
        code += strz(c) + (r.choice(["I.", "I", "Iz."]) if r.random() < .5 else r.choice(["Ez:#.#.", "E,,,", "E" , "E>:#,_"[:2] + ",.,."]))
    return Sc(n, lay(code, r, "><"), opts=opts, ticks=250, ms=8000, tag="perl")
def dirs(r, n):
    code = fpload("DIRF") + "n"
    names = ["d", "e", "d/x", "..", "../d", "d/../e", "nofile", "f", ".", "d/f", "x", "./e", "e/"]
    for k in range(r.randint(3, 9)):
        x = r.random()
        if x < .75:
            L = r.choice("CMMR" if r.random() < .6 else "CMR")
            ns = [x for x in names if ".." not in x and x != "."] if L == "R" else names if r.random() < .4 else [x for x in names if not x.startswith("..")]
            code += strz(r.choice(ns)) + L + r.choice(["", "z", "1."])
        elif x < .9:
            code += vec([2, 1]) + vec([0, 0]) + "0" + strz(r.choice(["o%d" % k, "f", "d/o"])) + "o"
        else:
            code += vec([0, 5]) + "0" + strz(r.choice(["f", "d/f", "../f"])) + "i$$$$"
    return Sc(n, lay(code, r, "><"), opts=["-std=be98"] + ([r.choice(["-fno-filesystem", "-lDIRF"])] if r.random() < .2 else []), ticks=500, ms=8000,
              files=dict([("d/", b""), ("f", b"abc\n")] + ([("d/f", b"12\n")] if r.random() < .5 else []) + ([("e/", b""), ("e/x/", b"")] if r.random() < .3 else [])), tag="dirs")

FAMILIES = dict(
    timer=timer, perl=perl, dirs=dirs,
    soup=soup_any, soup93=lambda r, n: soup_any(r, n, ("u93", "b93")), soup98=lambda r, n: soup_any(r, n, ("b98",)), soup3=lambda r, n: soup_any(r, n, ("t98",)), soup1=lambda r, n: soup_any(r, n, ("u98",)),
    stack=stack_ops, arith=arith, arith93=arith93, wrap=wrapping, torus=torus, flow=flow98, k=flow_k, semi=flow_semi, rnd=flow_rand, gp=gp98, gp93=gp93, bounds=bounds, blocks=blocks,
    strings=strings, conc=concurrent, ends=ends, unknown=cores, fails=fails, sysinfo=sysinfo, fploading=fploading, fing=fing, modes=modes, modes_line=modes_line, multi=multi_fp,
    fish=fish_soup, fish_line=fish_line, star=star_soup, star_line=star_line, fish_errors=fish_errors, star_call=star_call, star_file=star_file, star_dive=star_dive,
    text=loading, beq=beq, fl=lib_direct, fmv=fmv, file_in=file_in, file_out=file_out, file_round=file_round, options=options, caps=caps, iipc=iipc, iipc_dorm=iipc_dorm,
    mvrs=mvrs, mvrs_travel=mvrs_travel, life=life, lib=lib_real,
    debug=debug_any, debug_points=debug_points, debug_dbug=debug_dbug, debug_multi=debug_multi)
for _f in ALLFP:
    if _f not in ("MODU", "ROMA", "NULL", "TERM"):
        FAMILIES["fp_" + _f] = fp_family(_f)
        if _f not in ("DIRF", "PERL", "MVRS", "FPRT"):
            FAMILIES["soup_" + _f] = fp_soup(_f)

_EVERY = {}
def size(family):
    make(family, 0, 0)
    return len(_EVERY[family])
def make(family, count, seed, prefix=None):
    import every
    if family in every.EVERY:
        if family not in _EVERY:
            _EVERY[family] = every.EVERY[family](sys.modules[__name__])
        l = _EVERY[family]
        ks = range(len(l))
        if count < len(l):
            ks = sorted(random.Random("%s/%s" % (seed, family)).sample(ks, count))
        return [l[k]("%s-%d" % (prefix or family, k)) for k in ks]
    out = []
    for k in range(count):
        r = random.Random("%s/%s/%d" % (seed, family, k))
        out.append(FAMILIES[family](r, "%s-%d" % (prefix or family, k)))
    return out
