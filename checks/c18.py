"""C18: global alignment (spec/Align.tla)."""

RATES = [1000, 8000, 11025, 16000, 22050, 44100, 48000]


def num(r, a):
    return repr(round(r.uniform(-a, a), 4))


def noise(r, n, a=1.0):
    return [num(r, a) for _ in range(n)]


def burst(r, n, delay, width=None):
    """A loud burst surrounded by silence, and its delayed copy."""
    w = width or r.randint(3, max(3, n // 4))
    room = n - w - abs(delay)
    if room < 2:
        return None
    p = r.randint(1, room - 1) + max(0, -delay)
    b = [repr(round(r.choice([-1, 1]) * r.uniform(.5, 1), 3)) for _ in range(w)]
    ref, deg = ["0"] * n, ["0"] * n
    ref[p:p + w] = b
    deg[p + delay:p + delay + w] = b
    return ref, deg


def shift(x, d):
    return ["0"] * d + x[:len(x) - d] if d >= 0 else x[-d:] + ["0"] * -d


def speechlike(r, n):
    out, a = [], 0.0
    for _ in range(n):
        if r.random() < .03:
            a = r.choice([0, 0, .05, .3, 1])
        out.append(num(r, a) if a else "0")
    return out


def pairs(r, count, nmax, equal=False):
    for _ in range(count):
        n = r.choice([16, 17, 31, 32, 33, 64, 100, 128, r.randint(10, nmax), r.randint(10, nmax)])
        k = r.random()
        if k < .35:
            d = r.randint(-(n // 2) + 1, n // 2 - 1)
            p = burst(r, n, d)
            if p and r.random() < .8:
                yield {"ref": p[0], "deg": p[1], "delay": d}
                continue
        ref = speechlike(r, n) if r.random() < .7 else noise(r, n)
        d = r.choice([0, r.randint(-n + 1, n - 1), n // 2, -(n // 2), n // 2 + 1, -(n // 2) - 1, 1, -1])
        deg = shift(ref, d)
        if r.random() < .4:
            deg = [repr(float(v) * .7 + r.uniform(-.05, .05)) for v in deg]
        if not equal and r.random() < .4:
            m = r.randint(2, 2 * n)
            deg = (deg + noise(r, n))[:m]
        k = r.random()
        if k < .1:
            o = r.choice([-.5, -.1, .1, .5])
            deg = [repr(float(v) * .1 + o) for v in deg]
        elif k < .13:
            deg = ["0"] * len(deg)
        yield {"ref": ref, "deg": deg}


def far(r, how, delay=None):
    """A long signal of a few bursts and its delayed copy."""
    n = int(10 ** r.uniform(3.5, 5.3))
    if delay is None:
        delay = r.choice([-1, 1]) * r.choice([r.randint(0, n // 2), int(10 ** r.uniform(0, 5)), 2 ** r.randint(0, 16), 1000 * r.randint(1, 90),
                                             n // 2, n // 2 + 1, n // 2 - 1])
    n = max(n, abs(delay) + 1500)
    m = n if r.random() < .5 else n + r.choice([-1, 1]) * r.randint(1, n // 8)
    lo, hi = max(0, -delay), min(n, m - delay)
    if hi - lo < 400:
        return far(r, how)
    at, used = [], set()
    for _ in range(r.randint(1, 4)):
        w = r.randint(5, 30)
        p = r.randint(lo, hi - w)
        for i in range(p, p + w):
            used.add(i)
    at = [[i, repr(round(r.choice([-1, 1]) * r.uniform(.2, 1), 4))] for i in sorted(used)]
    return {"op": "far", "how": how, "n": n, "m": m, "rate": r.choice(RATES), "delay": delay, "at": at}


def run(ctx):
    drv = ctx.build("drv_align")["drv_align"]
    r, cases = ctx.rng, []
    for n, w in ctx.scale([(16, 3), (17, 3)], [(16, 4), (17, 4), (32, 4), (24, 5)]):
        gen = ctx.generate("AlignMC", spec="Spec", consts={"N": n, "W": w},
                           invariants=["Recovered", "Restored", "Case"], what="AlignMC %d/%d" % (n, w))
        cases += [dict(g, op="global", rate=r.choice(RATES)) for g in r.sample(gen, min(len(gen), 250))]
    for p in pairs(r, ctx.scale(400, 3000), ctx.scale(200, 400)):
        cases.append(dict(p, op="global", rate=r.choice(RATES)))
    for _ in range(ctx.scale(6, 60)):
        n = r.randint(1000, 2000)
        d = r.randint(-n // 3, n // 3)
        p = burst(r, n, d)
        if p:
            cases.append({"op": "global", "ref": p[0], "deg": p[1], "delay": d, "rate": 48000})
    for k in range(17):
        cases.append(far(r, "global", r.choice([-1, 1]) * 2 ** k))
    for _ in range(ctx.scale(100, 1500)):
        cases.append(far(r, "global"))
    for _ in range(ctx.scale(40, 400)):
        cases.append({"op": "env", "x": speechlike(r, r.randint(2, 150))})
    ctx.drive_and_judge(drv, cases, "AlignTrace", "AlignViolations", "global alignment vs Align.tla")
