"""C21: the filter bank (spec/Spectro.tla)."""


def run(ctx):
    drv = ctx.build("drv_spec")["drv_spec"]
    r, cases = ctx.rng, []
    for k in range(ctx.scale(60, 500)):
        rate = r.choice([1000, 8000, 16000, 22050, 44100, 48000, 96000])
        bands = r.choice([1, 2, 3, 5, 8, 21, 32, 40]) if k % 6 else r.choice([48, 64, 65, 100, 128])
        low = r.choice(["50", "50", "20", "100", "200.5"])
        high = r.choice([repr(rate / 2), "8000", "400", repr(rate), repr(rate / 3.0)])
        n = r.choice([6, 12, 24])
        sigs = [["1"] + ["0"] * (n - 1), [repr(r.randint(-99, 99)) for _ in range(n)]]
        if r.random() < .5:
            sigs.append(["0"] * (n // 2) + ["1"] + ["0"] * (n // 2 - 1))
        cases.append({"op": "bank", "rate": rate, "bands": bands, "low": low, "high": high, "signals": sigs,
                      "cut": r.randrange(n), "check": sorted({1, bands, r.randint(1, bands), max(1, bands - r.randint(0, 5))})})
    for rate, bands, low, high in ((48000, 32, "50", "24000"), (16000, 21, "50", "8000"),
                                   (8000, 21, "50", "8000"), (44100, 32, "50", "22050"))[:ctx.scale(4, 4)]:
        cases.append({"op": "tones", "rate": rate, "bands": bands, "low": low, "high": high})
    ctx.drive_and_judge(drv, cases, "SpectroTrace", "SpectroViolations", "filter bank vs Spectro.tla")
