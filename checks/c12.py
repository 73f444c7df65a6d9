"""C12: audio-mode reference patches (spec/Segmentation.tla)."""


def run(ctx):
    drv = ctx.build("drv_seg")["drv_seg"]
    gen = ctx.generate("AudioSegMC", spec="Spec",
                       consts={"MaxN": ctx.scale(40, 120), "MaxP": ctx.scale(10, 40)},
                       invariants=["Tiles", "Complete", "Case"], what="AudioSegMC")
    cases = [dict(g, op="audio") for g in gen]
    for n in ctx.rng.sample(range(10, 700), ctx.scale(60, 400)) + [44, 45, 46, 74, 75, 76, 104, 105]:
        cases.append({"op": "audio", "n": n, "p": 30})
    for _ in range(ctx.scale(200, 2000)):
        p = ctx.rng.randint(2, 60)
        cases.append({"op": "audio", "n": max(0, ctx.rng.choice([1, 2, 3, 5]) * p + p // 2 + ctx.rng.randint(-3, 3)), "p": p})
    # many patches
    for n in ctx.scale([300, 700, 1500, 5000], [300, 700, 1500, 5000, 9000, 20000] * 3):
        cases.append({"op": "audio", "n": n + ctx.rng.randint(0, 40), "p": ctx.rng.choice([2, 3, 7, 30])})
    ctx.drive_and_judge(drv, cases, "SegTrace", "SegViolations", "audio segmentation vs Segmentation.tla")
