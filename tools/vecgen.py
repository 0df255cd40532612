"""Operation sequences for the Vector and VectorRange classes."""
import itertools, random

BIG = [2**63 - 1, -2**63, 2**63 - 2, -2**63 + 1, 2**62, -2**62, 2**32, -2**32, 2**31, 2**31 - 1, -2**31 - 1, 256, 255, -256, 65536]

class Seq:
    def __init__(self, id):
        self.id, self.ops = id, []
    def op(self, name, k=1, a=0, b=0, d=0, w=0, s="", q=()):
        self.ops.append("%s %d %d %d %d %d x%s %s" % (name, k, a, b, d, w, s.encode("latin-1").hex(), " ".join(map(str, q))))
    def text(self):
        return "S %s\n%s\n" % (self.id, "\n".join(self.ops))

def comp(r):
    x = r.random()
    if x < 0.35: return 0
    if x < 0.85: return r.randint(-4, 4)
    if x < 0.93: return r.choice(BIG)
    return r.choice([r.randint(-300, 300), r.randint(-2**63, 2**63 - 1)])

def comps(r, n=None):
    n = r.randint(0, 6) if n is None else n
    q = [comp(r) for _ in range(n)]
    if q and r.random() < 0.4:
        for k in range(r.randint(1, len(q))):
            q[-1 - k] = 0
    return q

def spelled(r):
    """text that is, or nearly is, a vector"""
    ws = lambda: r.choice(["", "", "", " ", "\t", "\n", "  "])
    q = [r.choice([r.randint(-9, 9), r.randint(-999, 999), r.choice(BIG)]) for _ in range(r.randint(1, 6))]
    t = ws() + "(" + ws() + (ws() + "," + ws()).join(("-" + ws() if x < 0 else "") + str(abs(x)) for x in q) + ws() + ")"
    x = r.random()
    if x < 0.35:
        return t + r.choice(["", " ", "x", "(5)", ") "])
    if x < 0.5:
        return t[:r.randint(0, len(t))]
    if x < 0.8:
        i = r.randint(0, len(t))
        return t[:i] + r.choice(["a", "-", "-", ",", " ", "(", ")", "0", "00", "+", ".", "--"]) + t[i:]
    return r.choice(["", " ", "()", "( )", "(,)", "(,,3)", "x", "5", "-(1)", "(-)", "(-,1)", "(0-5)", "(5-)", "(1 2)", "(1,2", "(007)", "((1))", "(1,-2)(3)", "(1;2)", "\n", "(--3)"])

def tame(s):
    """at most six components, and no numeral beyond 64 bits (its value would be undefined)"""
    if s.count(",") > 5: return False
    n = 0
    for c in s:
        n = n + 1 if c.isdigit() else 0 if c in ",()" else n
        if n > 18: return False
    return True

def rand(seed, n):
    out = []
    for k in range(n):
        r = random.Random("vec/%s/%d" % (seed, k))
        s = Seq("vec-%d" % k)
        for i in range(1, 5):
            s.op(r.choice(["make", "list"]), k=i, q=comps(r))
        for _ in range(r.randint(8, 40)):
            i, a, b = r.randint(1, 4), r.randint(0, 4), r.randint(0, 4)
            o = r.choice("make list copy assign get set set plus minus addto addto subfrom subfrom reverse left right cmp cmp cmp print parse put put find find erase keys range rangepost".split())
            if o in ("make", "list"): s.op(o, k=i, q=comps(r))
            elif o == "get": s.op(o, a=a, d=r.randint(0, 9))
            elif o == "set": s.op(o, k=i, d=r.randint(0, 5), w=comp(r))
            elif o in ("addto", "subfrom"): s.op(o, k=i, a=i, b=b if r.random() < .7 else i)
            elif o == "parse":
                t = spelled(r)
                while not tame(t): t = spelled(r)
                s.op(o, k=i, s=t)
            elif o in ("put", "find", "erase"):
                if r.random() < .3: s.op("make", k=i, q=[r.choice([0, 1]) for _ in range(r.randint(0, 3))]); a = i
                s.op(o, a=a, w=r.randint(-9, 9))
            elif o in ("range", "rangepost"):
                d = r.randint(0, 5)
                lo = [r.choice([r.randint(-3, 3), r.randint(-2**62, 2**62), 0]) for _ in range(d)]
                ext = [r.choice([0, 0, 1, -1, 2, -2, 3, -3, 5]) for _ in range(d)]
                while True:
                    n = 1
                    for x in ext: n *= abs(x) + 1
                    if n <= 390: break
                    ext[r.randrange(d)] = 0
                s.op("make", k=1, q=lo)
                s.op("make", k=2, q=[x + y for x, y in zip(lo, ext)])
                s.op(o, a=1, b=2)
            else:
                s.op(o, k=i, a=a, b=b)
        s.op("keys")
        out.append(s)
    return out

def every(dim, dom, name, both):
    """all pairs of vectors with components in dom"""
    vs = list(itertools.product(dom, repeat=dim))
    out = []
    for a in vs:
        s = Seq("%s-%s" % (name, "_".join(map(str, a))))
        s.op("make", k=1, q=a)
        s.op("print", a=1)
        for o in ("reverse", "left", "right"):
            s.op("copy", k=3, a=1)
            s.op(o, k=3)
        for b in vs:
            s.op("list", k=2, q=b)
            for o in both:
                if o in ("addto", "subfrom"):
                    s.op("assign", k=3, a=1); s.op(o, k=3, a=3, b=2)
                elif o == "put":
                    s.op("put", a=2, w=sum(b))
                else:
                    s.op(o, k=3, a=1, b=2)
        s.op("keys")
        for b in vs:
            s.op("list", k=2, q=list(b) + [0])
            s.op("find", a=2)
        out.append(s)
    return out
