"""C22: preparation of spectrograms for comparison (spec/Spectro.tla)."""


def spec(r, cols, bands):
    style = r.random()
    out = []
    for _ in range(cols):
        base = r.choice([1, 1e-2, 1e-4, 1e-6, 100]) if style < .7 else 1
        fr = []
        for _ in range(bands):
            v = base * 10 ** r.uniform(-7, 0) if r.random() < .7 else r.choice([0, 1, 1e-4, 10 ** -4.5, 1e-20, 3e-5, 10])
            fr.append(repr(float(v)))
        out.append(fr)
    return out


def run(ctx):
    drv = ctx.build("drv_spec")["drv_spec"]
    r, cases = ctx.rng, []
    gen = ctx.generate("PrepMC", spec="Spec", consts={"MaxCols": ctx.scale(2, 2), "Bands": 2},
                       invariants=["NonNegative", "SmallestZero", "Swaps", "FloorsHold", "OrderKept", "Case"],
                       what="PrepMC")
    cases += [dict(g, op="prep") for g in gen]
    for _ in range(ctx.scale(400, 5000)):
        b = r.choice([1, 2, 3, 5, 8])
        cases.append({"op": "prep", "ref": spec(r, r.randint(1, 7), b), "deg": spec(r, r.randint(1, 7), b)})
    ctx.drive_and_judge(drv, cases, "SpectroTrace", "SpectroViolations", "spectrogram preparation vs Spectro.tla")
