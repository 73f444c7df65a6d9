"""C24: patch similarity index (spec/Similarity.tla)."""


def patch(r, rows, cols):
    k = r.random()
    if k < .12:
        v = r.choice(["0", "1", "20", "45.5"])
        return [[v] * cols for _ in range(rows)]
    if k < .3:
        return [[repr(float(r.choice([0, 0, 0, 10, 40]))) for _ in range(cols)] for _ in range(rows)]
    if k < .4:
        row = [repr(r.uniform(0, 60)) for _ in range(cols)]
        return [row[:] for _ in range(rows)]
    if k < .5:
        return [[repr(1e-6 * r.randint(0, 9)) for _ in range(cols)] for _ in range(rows)]
    return [[repr(r.uniform(0, r.choice([1, 45, 100]))) for _ in range(cols)] for _ in range(rows)]


def near(r, p):
    return [[repr(max(0.0, float(v) + r.uniform(-2, 2))) if r.random() < .5 else v for v in row] for row in p]


def run(ctx):
    drv = ctx.build("drv_sim")["drv_sim"]
    r, cases = ctx.rng, []
    gen = ctx.generate("NsimMC", spec="Spec", consts={"Values": ["0", "1", "30"]},
                       invariants=["Symmetric", "Identical", "Bounded", "Case"], what="NsimMC 2x2 patches")
    sel = r.sample(gen, min(len(gen), ctx.scale(250, 3000)))
    for g in sel:
        cases.append({"op": "nsim", "ref": g["r"], "deg": g["d"]})
    for _ in range(ctx.scale(300, 4000)):
        rows, cols = r.randint(1, 6), r.randint(1, 7)
        ref = patch(r, rows, cols)
        deg = near(r, ref) if r.random() < .4 else patch(r, rows, cols)
        cases.append({"op": "nsim", "ref": ref, "deg": deg})
    for rows, cols in ((21, 20), (32, 30))[:ctx.scale(2, 2)]:
        ref = patch(r, rows, cols)
        cases.append({"op": "nsim", "ref": ref, "deg": near(r, ref)})
    ctx.drive_and_judge(drv, cases, "SimTrace", "SimViolations", "similarity index vs Similarity.tla")
