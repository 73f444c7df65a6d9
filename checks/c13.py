"""C13: speech-mode reference patches and voice activity (spec/Segmentation.tla)."""


def speech_case(r, loud=None, many=0):
    p = r.choice([2, 3, 4, 6, 10, 20]) if not many else r.choice([2, 3, 5])
    win = r.choice([8, 12, 16, 32]) if not many else 8
    hop = win // 4
    first = p // 2 - 1
    frames = len(loud) if loud else r.choice([0, p - 1, p, p + 1, 3 * p, 5 * p + 2, 7 * p])
    if many:
        frames = many * p
    n = frames + first if r.random() < .9 else r.randint(0, p)
    cols = max(n, 1)
    total = win + (cols - 1) * hop + hop - 1
    peak = r.choice([32768, 32768, 20000, 3276.8, 1])
    def lvl(v):
        return v * peak / 32768.0 / 32768.0
    x = [lvl(r.randint(-50, 50)) for _ in range(total)]
    k, pos = 0, first
    while pos + hop <= total:
        if loud:
            on = loud[k % len(loud)]
        else:
            on = r.random() < r.choice([.1, .3])
        a = r.choice([5000, 5001, 9000, 32767, 40000]) if on else r.choice([0, 4999, 100, 4998])
        for j in range(hop):
            if on or a:
                x[pos + j] = lvl(a if (on and a <= 32767 or not on) and r.random() < .5 else -a)
        if r.random() < .1:   # a block whose energy is in one sample
            s = r.choice([-1, 1])
            for j in range(hop):
                x[pos + j] = lvl(0)
            x[pos + r.randrange(hop)] = lvl(s * r.choice([5000, 9999, 10000, 10001, 14142, 20000]))
        pos += hop
        k += 1
    x[r.randrange(min(first, total - 1), total)] = lvl(32768)
    return {"op": "speech", "p": p, "n": n, "win": win, "x": [repr(v) for v in x]}


def run(ctx):
    drv = ctx.build("drv_seg")["drv_seg"]
    r = ctx.rng
    gen = ctx.generate("VadMC", spec="Spec", consts={"MaxFrames": ctx.scale(9, 12), "P": 2},
                       invariants=["Closed", "BlocksOk", "Case"], properties=["Stable"], what="VadMC")
    ctx.mc("VadMC", spec="Spec", consts={"MaxFrames": ctx.scale(9, 12), "P": 3},
           invariants=["BlocksOk"], what="VadMC blocks of 3")
    cases = []
    for g in gen:
        ch = []
        for b in g["loud"]:
            ch.append([r.choice([-1, 1]) * (r.choice([5000, 5001, 20000]) if b else r.choice([4999, 0, 10]))
                       for _ in range(3)])
        cases.append({"op": "vad", "chunks": ch})
    for g in r.sample(gen, ctx.scale(300, 1500)):
        cases.append(speech_case(r, g["loud"]))
    for _ in range(ctx.scale(300, 3000)):
        cases.append(speech_case(r))
    for many in ctx.scale([70, 140, 300], [70, 140, 300, 520, 1030]):
        cases.append(speech_case(r, many=many))
    for _ in range(ctx.scale(200, 1500)):
        ln = r.choice([1, 3, 4, 8])
        x = []
        for _ in range(r.randint(3, 30)):
            a = r.choice([0, 100, 4999, 5000, 5001, 32767, 32768, 70000]) / 32768.0
            x += [repr(r.choice([-1, 1]) * a) for _ in range(ln)]
        st = r.randint(0, ln)
        tot = r.randint(2 * ln, len(x) - st)
        cases.append({"op": "activity", "x": x, "start": st, "total": tot, "len": ln})
    ctx.drive_and_judge(drv, cases, "SegTrace", "SegViolations", "speech segmentation vs Segmentation.tla")
    ctx.assumptions.append("reference signals with a positive peak; patches of at least two frames")
