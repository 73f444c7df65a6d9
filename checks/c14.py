"""C14: patch matching is the best monotone assignment (spec/PatchMatch.tla)."""


def random_match(r, big):
    w = r.choice([1, 2, 3, 4, 5, 8])
    p = r.choice([1, 2, 3, 4, 6, 8, 12])
    n = r.randint(1, 60 if big else 36)
    kind = r.random()
    starts, pos = [], r.choice([0, 0, 1, w // 2, w])
    for _ in range(p):
        starts.append(pos)
        pos += w if kind < .5 else r.randint(1, 2 * w + 1)
    rad = r.choice([1, 1, 1, 2, 3, 6, 60, 0])
    k = r.choice([2, 3, 10, 1000])
    lo = r.choice([1, 1, 0, -k, -k])      # the similarity index can be negative
    sim = [[r.randint(lo, k) for _ in range(n)] for _ in range(p)]
    if r.random() < .4:   # a plausible signal: a shifted diagonal, a lost packet
        sh = r.randint(-2 * w, 2 * w)
        for i, s in enumerate(starts):
            if 0 <= s + sh < n:
                sim[i][s + sh] = k * 3
            if r.random() < .2:
                sim[i] = [lo] * n
    c = {}
    if r.random() < .3:    # similarities that differ by very little
        c["unit"] = 2 ** r.choice([20, 20, 20, 30, 44])
        base, step = r.choice([900000, 1000000, 0, -5000]), r.choice([1, 20, 400])
        sim = [[base + step * v for v in row] for row in sim]
    return {**c, "op": "match", "n": n, "w": w, "r": starts, "rad": rad, "sim": sim,
            "fd": r.choice(["0.25", "0.02", "0.020000000000000004", "1"])}


def run(ctx):
    drv = ctx.build("drv_match")["drv_match"]
    ctx.mc("PatchMC", spec="Spec", consts={"P": 2, "N": 4, "K": 3, "W": 2, "MaxRad": 2, "Neg": False, "Emit": False},
           invariants=["Reachable", "Optimal", "Suffix"], properties=["Monotone"],
           what="PatchMC 2 patches, 4 positions, 3 levels") if ctx.thorough else None
    gen = ctx.generate("PatchMC", spec="Spec",
                       consts={"P": 3, "N": 3, "K": 2, "W": 1, "MaxRad": 2, "Neg": False, "Emit": True},
                       invariants=["Reachable", "Optimal", "Suffix", "Case"], properties=["Monotone"],
                       what="PatchMC 3 patches, 3 positions, 2 levels")
    gen += ctx.generate("PatchMC", spec="Spec",
                        consts={"P": 3, "N": 3, "K": 2, "W": 1, "MaxRad": 2, "Neg": True, "Emit": True},
                        invariants=["Reachable", "Optimal", "Suffix", "Case"], properties=["Monotone"],
                        what="PatchMC 3 patches, 3 positions, a positive and a negative level")
    if ctx.thorough:
        ctx.mc("PatchMC", spec="Spec", consts={"P": 3, "N": 4, "K": 2, "W": 1, "MaxRad": 1, "Neg": True, "Emit": False},
               invariants=["Reachable", "Optimal", "Suffix"], what="PatchMC 3 patches, 4 positions")
    cases = [dict(g, op="match", fd="0.25") for g in gen]
    ctx.rng.shuffle(cases)
    cases = cases[:ctx.scale(4000, 60000)]
    for _ in range(ctx.scale(600, 6000)):
        cases.append(random_match(ctx.rng, ctx.thorough))
    for p, n in ctx.scale([(20, 40), (33, 70), (66, 70)], [(20, 40), (33, 70), (40, 120), (66, 140), (130, 135)] * 3):
        c = random_match(ctx.rng, False)
        st = sorted(ctx.rng.sample(range(n), p))
        c.update(n=n, r=st, rad=ctx.rng.choice([1, 3, 60]), sim=[[ctx.rng.randint(1, 9) for _ in range(n)] for _ in st])
        c.pop("unit", None)
        cases.append(c)
    ctx.drive_and_judge(drv, cases, "PatchTrace", "MatchViolations", "patch matching vs PatchMatch.tla")
