"""C29: transforms and cross-correlation (spec/Align.tla)."""
from c18 import noise, speechlike


def run(ctx):
    drv = ctx.build("drv_align")["drv_align"]
    r, cases = ctx.rng, []
    ctx.mc("XcorrMC", spec="Spec", consts={"N": ctx.scale(4, 5)},
           invariants=["AutoCorrelationPeaksAtZero", "Mirrored", "ShiftFound"], what="XcorrMC")
    def fft(n, points, pad, x=None, bins=6):
        return {"op": "fft", "x": x or noise(r, n, r.choice([1e-3, 1, 300])), "points": points, "pad": pad,
                "warm": r.random() < .5, "bins": [0, points // 2] + [r.randrange(8192) for _ in range(bins)]}
    for n in list(range(1, 70)) + [127, 128, 129, 255, 256, 257]:
        cases.append(fft(n, n, False))
    for _ in range(ctx.scale(120, 1500)):
        n = r.randint(1, ctx.scale(200, 600))
        cases.append(fft(n, n + r.choice([0, 1, 2, 5, 31, 64, n]), True))
    for n in ctx.scale([1024, 1500], [1024, 2048, 3000, 4097, 17000, 40000]):
        cases.append(fft(n, n, False, bins=2))
    for _ in range(ctx.scale(60, 400)):   # basis signals: impulses and tones
        n = r.choice([8, 16, 32, 33, 50, 64, 100])
        x = ["0"] * n
        x[r.randrange(n)] = r.choice(["1", "-1", "0.25"])
        cases.append(fft(n, n, False, x=x, bins=12))
    for _ in range(ctx.scale(350, 4000)):
        n, m = r.randint(9, 120), r.randint(1, 120)
        if r.random() < .5:
            m = n
        a = speechlike(r, n) if r.random() < .5 else noise(r, n)
        k = r.randint(-n + 1, n - 1)
        b = (["0"] * max(0, k) + a[max(0, -k):] + ["0"] * n)[:m] if r.random() < .6 else noise(r, m)
        if r.random() < .5:
            a, b = b, a
        cases.append({"op": "xcorr", "a": a, "b": b})
    # the furthest lags: only the ends of the signals correlate
    for _ in range(ctx.scale(80, 600)):
        n, m = r.randint(9, 90), r.randint(1, 90)
        a, b = ["0"] * n, ["0"] * m
        i, j = r.choice([(0, m - 1), (n - 1, 0), (n - 1, m - 1), (0, 0), (n - 2, 0), (0, max(0, m - 2))])
        a[i], b[j] = r.choice(["1", "-0.5"]), r.choice(["1", "0.25"])
        cases.append({"op": "xcorr", "a": a, "b": b})
    for n in range(9, 40):
        a = noise(r, n)
        cases.append({"op": "xcorr", "a": a, "b": a})
    ctx.drive_and_judge(drv, cases, "AlignTrace", "AlignViolations", "transforms and correlation vs Align.tla")
