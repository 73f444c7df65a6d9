"""C17: extraction of a time segment (spec/PatchMatch.tla)."""


def run(ctx):
    drv = ctx.build("drv_match")["drv_match"]
    r, cases = ctx.rng, []
    gen = ctx.generate("SegmentMC", spec="Spec", consts={"MaxN": ctx.scale(5, 8)},
                       invariants=["Duration", "Concatenates", "Silence", "InOrder", "Case"],
                       what="SegmentMC")
    for g in gen:
        cases.append({"op": "slice", "rate": 16, "x": [3 * k + 4 for k in range(g["n"])],
                      "q0": g["q0"], "q1": g["q1"]})
    for _ in range(ctx.scale(800, 8000)):
        n = r.randint(2, 200)
        q0 = r.randint(-60, 4 * (n - 1) - 4)
        q1 = r.randint(max(q0, 0) + 8, 4 * n + r.choice([0, 0, 60]) + 8)
        cases.append({"op": "slice", "rate": r.choice([8, 64, 1024, 65536]),
                      "x": [r.randint(1, 999) for _ in range(n)], "q0": q0, "q1": q1})
    # at least one sample of the signal (the segments ViSQOL extracts)
    cases = [c for c in cases if max(0, int(c["q0"] / 4)) < min(c["q1"] // 4, len(c["x"]) - 1)]
    ctx.drive_and_judge(drv, cases, "PatchTrace", "SliceViolations", "segment extraction vs PatchMatch.tla")
