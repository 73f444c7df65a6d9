"""C20: spectrogram framing (spec/Spectro.tla)."""


def sig(r, n):
    kind = r.random()
    if kind < .1:
        return ["0"] * n
    if kind < .25:
        x = ["0"] * n
        x[r.randrange(n)] = "1"
        return x
    return [repr(r.randint(-1000, 1000) / 1024) for _ in range(n)]


def run(ctx):
    drv = ctx.build("drv_spec")["drv_spec"]
    r, cases = ctx.rng, []
    ctx.mc("FramingMC", spec="Spec", consts={"MaxN": ctx.scale(40, 120)},
           invariants=["InRange", "Complete", "Counted"], what="FramingMC")
    # every length around the window, small windows
    for size, hop in ((8, 2), (12, 3), (9, 4)):
        for n in range(1, size + 3 * hop + 2):
            cols = max(0, 1 + (n - size) // hop) if n > size else 0
            cases.append({"op": "build", "x": sig(r, n), "rate": r.choice([1000, 8000, 16000]), "size": size,
                          "hop": hop, "bands": 2, "low": "50", "speech": r.random() < .5,
                          "check": [cols] if cols else []})
    for _ in range(ctx.scale(60, 600)):
        size = r.choice([8, 16, 20, 33])
        hop = r.choice([size // 4, size // 2, size, 1, 3])
        n = r.randint(size + 1, size + 6 * hop + 1)
        cols = 1 + (n - size) // hop
        cases.append({"op": "build", "x": sig(r, n), "rate": r.choice([200, 1000, 8000, 16000, 48000]), "size": size,
                      "hop": hop, "bands": r.choice([1, 2, 3, 5]), "low": r.choice(["50", "20", "90"]),
                      "speech": r.random() < .5, "check": sorted({1, cols, r.randint(1, cols)})})
    # many columns: each starts afresh, however far into the signal
    for cols in ctx.scale([66, 131, 258], [66, 131, 258, 515, 1026, 2050, 4100]):
        size, hop = r.choice([(8, 2), (9, 4), (8, 8)])
        x = sig(r, size) + [repr(r.randint(-1000, 1000) / 1024) for _ in range(hop * (cols - 1))]
        cases.append({"op": "build", "x": x, "rate": r.choice([1000, 8000]), "size": size, "hop": hop, "bands": 2, "low": "50",
                      "speech": r.random() < .5, "check": sorted({c for c in (1, 33, 65, 64, 129, 257, 513, 1025, 2049, cols, r.randint(1, cols)) if c <= cols})})
    for _ in range(ctx.scale(24, 200)):
        rate = r.choice([8000, 16000, 48000, 11025])
        dur = r.choice(["0.08", "0.08", "0.02"])
        size = round(rate * float(dur))
        n = r.choice([size - 1, size, size + 1, size + size // 4 - 1, size + size // 4,
                      size + size // 4 + 1, 2 * size + 3, 3 * size])
        cases.append({"op": "frames", "rate": rate, "dur": dur, "n": n, "seed": r.randrange(10 ** 6),
                      "bands": 21 if rate <= 16000 else 32, "low": "50", "speech": rate <= 16000,
                      "probe": [r.randrange(1000), 0]})
    ctx.drive_and_judge(drv, cases, "SpectroTrace", "SpectroViolations", "spectrogram building vs Spectro.tla")
    ctx.assumptions.append("hops that divide exactly (the hop is the integer part of window times overlap)")
