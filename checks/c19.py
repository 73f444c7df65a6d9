"""C19: aligned and truncated pairs (spec/Align.tla)."""
from c18 import RATES, burst, far, pairs


def run(ctx):
    drv = ctx.build("drv_align")["drv_align"]
    r, cases = ctx.rng, []
    for n, w in ctx.scale([(16, 3)], [(16, 4), (32, 4), (24, 5)]):
        gen = ctx.generate("AlignMC", spec="Spec", consts={"N": n, "W": w},
                           invariants=["Recovered", "Restored", "Case"], what="AlignMC %d/%d" % (n, w))
        cases += [dict(ref=g["ref"], deg=g["deg"], op="trunc", rate=r.choice(RATES)) for g in gen]
    for p in pairs(r, ctx.scale(350, 3000), ctx.scale(200, 400), equal=True):
        cases.append(dict(op="trunc", ref=p["ref"], deg=p["deg"], rate=r.choice(RATES)))
    # lags whose duration in seconds does not convert back exactly
    odd = [(L, rate) for rate in RATES for L in range(1, 130) if int((L / rate) * rate) != L]
    for L, rate in r.sample(odd, min(len(odd), ctx.scale(40, 10**9))):
        for s in (1, -1):
            p = burst(r, 2 * L + r.randint(8, 60), s * L, width=3)
            if p:
                cases.append({"op": "trunc", "ref": p[0], "deg": p[1], "rate": rate})
    # segments of different lengths, a few samples or many
    for p in pairs(r, ctx.scale(150, 2500), ctx.scale(160, 400), equal=True):
        d = p["deg"]
        k = r.choice([1, 1, 2, 2, 3, r.randint(1, len(d) // 2)])
        d = d[:-k] if r.random() < .4 else d + (["0"] * k if r.random() < .7 else [repr(round(r.uniform(-.3, .3), 3)) for _ in range(k)])
        if len(d) > 1:
            cases.append(dict(op="trunc", ref=p["ref"], deg=d, rate=r.choice(RATES)))
    for _ in range(ctx.scale(80, 1200)):
        cases.append(far(r, "trunc"))
    ctx.drive_and_judge(drv, cases, "AlignTrace", "AlignViolations", "aligned truncation vs Align.tla")
