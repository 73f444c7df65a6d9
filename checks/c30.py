"""C30: the matrix type (spec/Matrix.tla)."""


class Hist:
    """A random history; tracks the shapes so that every operation is legal."""

    def __init__(self, r):
        self.r, self.sh, self.ops = r, [(1, 1)] * 3, []

    def nums(self, n):
        r = self.r
        return [r.choice([str(r.choice([-1, 1]) * r.randint(1, 9)), repr(round(r.uniform(-50, 50), 3))]) for _ in range(n)]

    def add(self, f, d=0, a=0, b=0, shape=None, **kw):
        self.ops.append(dict(f=f, d=d, a=a, b=b, **kw))
        if shape:
            self.sh[d] = shape

    def make(self, d=None, shape=None):
        r = self.r
        rr, cc = shape or (r.randint(1, 6), r.randint(1, 6))
        how = r.choice(["cols", "moved", "moved", "copied", "filled", "arma", "elements", "vec", "valarray", "span"])
        if how in ("vec", "valarray", "span"):
            if shape and cc != 1:
                how = "moved"
            else:
                cc = 1
        self.add("make", r.randrange(3) if d is None else d, shape=(rr, cc), how=how, r=rr, c=cc, e=self.nums(rr * cc))

    def step(self):
        r = self.r
        d, a, b = r.randrange(3), r.randrange(3), r.randrange(3)
        (ra, ca), (rb, cb) = self.sh[a], self.sh[b]
        i, j = r.randrange(ra), r.randrange(ca)
        f = r.choice(["make", "make", "copy", "copyctor", "get", "set", "row", "rowsubset", "rows", "column", "columns",
                      "span", "setrow", "setrowva", "setcol", "setcolvec", "setcolva", "join", "transpose", "flip",
                      "resize", "mean", "stddev", "arith", "arith", "scalar", "eq", "eq", "shape", "tovec", "tova",
                      "iter"])
        if ra * ca > 80 and f in ("join", "resize"):
            f = "column"
        S = (ra, ca)
        if f == "make":
            self.make(d, self.sh[a] if r.random() < .6 else None)
        elif f in ("copy", "copyctor", "flip"):
            self.add(f, d, a, b, S)
        elif f == "get":
            self.add(f, d, a, b, i=i, j=j)
        elif f == "set":
            self.add(f, d, a, b, S, i=i, j=j, x=self.nums(1)[0])
        elif f == "row":
            self.add(f, d, a, b, i=i)
        elif f == "rowsubset":
            self.add(f, d, a, b, i=i, j=j, k=r.randrange(j, ca))
        elif f == "rows":
            k = r.randrange(i, ra)
            self.add(f, d, a, b, (k - i + 1, ca), i=i, k=k)
        elif f == "column":
            self.add(f, d, a, b, (ra, 1), j=j)
        elif f == "columns":
            k = r.randrange(j, ca)
            self.add(f, d, a, b, (ra, k - j + 1), j=j, k=k)
        elif f == "span":
            i2, k = r.randrange(i, ra), r.randrange(j, ca)
            self.add(f, d, a, b, (i2 - i + 1, k - j + 1), i=i, i2=i2, j=j, k=k)
        elif f in ("setrow", "setrowva"):
            self.add(f, d, a, b, S, i=i, e=self.nums(ca))
        elif f in ("setcol", "setcolvec", "setcolva"):
            self.add(f, d, a, b, S, j=j, e=self.nums(ra))
        elif f == "join":
            if ca != cb:
                self.make(b, (r.randint(1, 4), ca))
                if a == b:
                    ra = self.sh[a][0]
                rb = self.sh[b][0]
            self.add(f, d, a, b, (ra + rb, ca))
        elif f == "transpose":
            self.add(f, d, a, b, (ca, ra))
        elif f == "resize":
            s = (r.randint(1, 7), r.randint(1, 7))
            self.add(f, d, a, b, s, i=s[0], j=s[1])
        elif f in ("mean", "stddev"):
            k = r.randrange(2)
            self.add(f, d, a, b, (ra, 1) if k else (1, ca), i=k)
        elif f == "arith":
            if S != (rb, cb):
                self.make(b, S)
                if self.sh[b] != self.sh[a]:
                    return
            f = r.choice(["add", "sub", "mul", "div"])
            if f == "div" and a != b:
                self.make(b, S)
            if f == "div" and (a == b or self.sh[b] != S):
                return
            self.add(f, d, a, b, S)
        elif f == "scalar":
            self.add(r.choice(["adds", "subs", "muls", "divs"]), d, a, b, S, x=r.choice(["2", "-0.5", "3.7", "1e3"]))
        elif f == "eq":
            k = r.random()
            if k < .3:   # one element apart, or the same numbers in another shape
                self.add("copy", d, a, a, S)
                if r.random() < .7:
                    self.add("set", d, d, d, S, i=r.randrange(ra), j=r.randrange(ca), x="123")
                self.add("eq", 0, a, d)
            elif k < .5:
                e = self.nums(ra * ca)
                self.add("make", a, shape=S, how="copied", r=ra, c=ca, e=e)
                if a != b:
                    self.add("make", b, shape=(ca, ra), how="copied", r=ca, c=ra, e=e)
                self.add("eq", 0, a, b)
            elif k < .7 and ca > 1 and a != b:
                self.add("columns", b, a, a, (ra, ca - 1), j=0, k=ca - 2)
                self.add("eq", 0, a, b)
            else:
                self.add("eq", 0, a, b)
        else:
            self.add(f, d, a, b)


def run(ctx):
    drv = ctx.build("drv_matrix")["drv_matrix"]
    r = ctx.rng
    inv = ["WellFormed", "Involutions", "JoinSplits", "EqualityIsStructural", "MeanOfTranspose"]
    gen = ctx.generate("MatrixMC", spec="Spec", consts={"MaxDim": 2, "MaxOps": 2}, invariants=inv + ["Case"],
                       what="MatrixMC all histories of two operations")
    if ctx.thorough:
        ctx.mc("MatrixMC", spec="Spec", consts={"MaxDim": 3, "MaxOps": 2}, invariants=inv, what="MatrixMC 3x3")
    cases = r.sample(gen, min(len(gen), ctx.scale(400, 6000)))
    for _ in range(ctx.scale(500, 6000)):
        h = Hist(r)
        for d in range(3):
            h.make(d)
        for _ in range(r.randint(4, 14)):
            h.step()
        cases.append({"ops": h.ops})
    ctx.drive_and_judge(drv, cases, "MatrixTrace", "MatrixViolations", "histories vs Matrix.tla")
