"""C25: aggregation of the patches into per-band features (spec/Similarity.tla)."""


def data(r, bands, style):
    def f(lo, hi):
        return repr(r.uniform(lo, hi))
    lo, hi = {"low": (0, .14), "mixed": (-.2, 1), "high": (.8, 1), "same": (.5, .5)}[style]
    return {"sim": repr(r.choice([.2, .4, .6, .8])), "means": [f(lo, hi) for _ in range(bands)],
            "stds": [f(0, .3) if r.random() < .8 else "0" for _ in range(bands)],
            "energy": [f(0, 40) for _ in range(bands)]}


def pipe(r, npatch=None):
    w = r.choice([3, 4, 5, 8])
    hop = 4
    p = npatch or r.choice([1, 1, 2, 3, 5, 9, 10, 11, 19, 20, 21, 30])
    bands = r.randint(1, 5)
    starts, pos = [], r.randint(0, 3)
    for _ in range(p):
        starts.append(pos)
        pos += w + r.choice([0, 0, 1, 3])
    cols = pos + r.randint(0, 3) + 1
    n = cols * hop + 12
    realign = r.random() < .7
    base = [r.choice([-1, 1]) * r.randint(1, 3000) for _ in range(n + 80)]
    ref, deg = base[40:40 + n], [7 * v for v in base[40:40 + n]]
    if realign:
        for s in starts:
            d = r.choice([0, 1, -1, 2, 5, -3, w])
            for t in range(s * hop, (s + w) * hop):
                deg[t] = 7 * base[40 + t - d]
    g = r.choice([1, .5, .01])
    style = r.choice(["low", "mixed", "mixed", "high", "same"])
    return {"op": "pipe", "w": w, "starts": starts, "cols": cols, "ref": ref, "deg": [v * g for v in deg],
            "coarse": [data(r, bands, style) for _ in range(p)],
            "fine": [data(r, bands, style) for _ in range(p)],
            "radius": r.choice([0, 1, 1, 2, 60]), "realign": realign, "mos": r.choice(["3.25", "1", "4.9"]),
            "cf": [str(50 * (b + 1)) for b in range(bands)]}


def run(ctx):
    drv = ctx.build("drv_sim")["drv_sim"]
    r, cases = ctx.rng, []
    gen = ctx.generate("AggMC", spec="Spec", consts={"MaxPatches": ctx.scale(3, 4)},
                       invariants=["OrderFree", "QuantileBounds", "DeviationDefined", "Case"], what="AggMC")
    for g in gen:
        cases.append({"op": "quantile", "patches": g["p"], "pct": r.choice([10, 25, 50, 100])})
    for _ in range(ctx.scale(250, 4000)):
        cases.append(pipe(r))
    for k in range(1, ctx.scale(32, 120)):
        cases.append(pipe(r, k))
        for pct in (10, r.randint(1, 100)):
            if abs(k * pct % 100) in (0,) and pct not in (10, 20, 25, 50, 100):
                continue   # k*pct/100 integral: rounding of pct/100 decides
            cases.append({"op": "quantile", "pct": pct, "patches":
                          [{"means": [repr(r.uniform(-1, 1)) for _ in range(2)]} for _ in range(k)]})
    ctx.drive_and_judge(drv, cases, "SimTrace", "SimViolations", "aggregation vs Similarity.tla")
