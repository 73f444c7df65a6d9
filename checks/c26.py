"""C26: the exponential quality mapping (spec/Similarity.tla)."""
from c25 import pipe


def run(ctx):
    drv = ctx.build("drv_sim")["drv_sim"]
    r, cases = ctx.rng, []
    ctx.mc("MappingMC", spec="Spec", consts={"Steps": ctx.scale(400, 4000)},
           invariants=["InRange", "Ratio"], properties=["Monotone"], what="MappingMC")
    for _ in range(ctx.scale(60, 600)):
        n = r.choice([1, 2, 5, 21, 32])
        vs = []
        for _ in range(12):
            m = r.choice([r.uniform(-.5, 1.2), r.uniform(.5, 1), r.uniform(.95, 1.02), 0])
            vs.append([repr(m + r.uniform(-.2, .2)) for _ in range(n)])
        vs.append(["1"] * n)
        vs.append(["0"] * n)
        cases.append({"op": "map", "v": vs})
    # below 0.15 the score is 1 whatever the mapping says
    for _ in range(ctx.scale(60, 600)):
        c = pipe(r)
        t = r.choice([.1499999, .1500001, .15 + 1e-7, .05, -.1, .3, .16, .14])
        for d in c["coarse"] + c["fine"]:
            d["means"] = [repr(t)] * len(d["means"])
        c["mos"] = r.choice(["2.5", "5", "4.2"])
        cases.append(c)
    ctx.drive_and_judge(drv, cases, "SimTrace", "SimViolations", "quality mapping vs Similarity.tla")
