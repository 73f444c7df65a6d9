"""C16: fine realignment (spec/PatchMatch.tla)."""


def case(r, plen, rate, spec):
    """spec: per patch (kind, delay): "unmatched", "better", "equal", "worse", "fail"."""
    n = plen * (len(spec) + 1)
    base = [r.randint(-500, 500) * (1 if r.random() < .5 else 6) for _ in range(n + 80)]
    ref, deg = base[40:40 + n], base[40:40 + n]
    coarse, newsim, fail = [], [], []
    pos = r.randint(0, plen // 2)
    for i, (kind, d) in enumerate(spec):
        for t in range(pos, pos + plen):
            if 0 <= 40 + t - d < len(base):
                deg[t] = base[40 + t - d]
        o = {"ds": "0", "de": "0", "sim": "0"} if kind == "unmatched" else \
            {"ds": repr(pos / rate), "de": repr((pos + plen) / rate), "sim": "0.5"}
        o.update(rs=repr(pos / rate), re=repr((pos + plen) / rate),
                 means=[i, 11, 12], stds=[i, 13], energy=[i, 14, 15])
        coarse.append(o)
        newsim.append({"better": "0.75", "worse": "0.25", "equal": "0.5"}.get(kind, "0.6"))
        fail.append(kind == "fail")
        pos += plen
    return {"op": "realign", "rate": rate, "ref": ref, "deg": [3 * v for v in deg], "coarse": coarse,
            "newsim": newsim, "fail": fail}


def run(ctx):
    drv = ctx.build("drv_match")["drv_match"]
    gen = ctx.generate("RealignMC", spec="Spec", consts={"MaxLen": ctx.scale(2, 3), "L": 8},
                       invariants=["PerPatch", "Ordered", "Case"], what="RealignMC")
    r, cases = ctx.rng, []
    for g in gen:
        cases.append(case(r, 32, 64, [(it["kind"], 4 * it["lag"]) for it in g["items"]]))
    for k in range(ctx.scale(700, 8000)):
        rate = r.choice([32, 64, 128, 8192, 65536])
        plen = r.choice([16, 24, 40, 64])
        n = plen * r.randint(3, 7)
        base = [r.randint(-500, 500) * (1 if r.random() < .5 else 6) for _ in range(n + 80)]
        ref = base[40:40 + n]
        deg = list(ref)
        coarse, newsim, fail = [], [], []
        p = r.randint(0 if k % 20 == 0 else 1, 6)
        pos, starts = r.randint(0, 4), []
        while pos + plen <= n and len(starts) < p:
            starts.append(pos)
            pos += plen + r.randint(0, 3)
        # a delay that differs from patch to patch (clock drift)
        for s in starts:
            d = r.choice([0, 0, 1, -1, 3, -3, plen // 4, -plen // 4, plen // 3, -(plen // 2) + 1, plen])
            for t in range(s, s + plen):
                if 0 <= 40 + t - d < len(base):
                    deg[t] = base[40 + t - d]
        deg = [3 * v for v in deg]
        for i, s in enumerate(starts):
            if r.random() < .15:
                o = {"ds": "0", "de": "0", "sim": "0"}
            else:
                ds = s + r.choice([0, 0, 1, -1, 2, -5, 7])
                ds = min(max(ds, 0 if r.random() < .8 else -3), n - 10)
                sim = r.choice(["0.5", "0.25", "0.75", "1"])
                o = {"ds": repr(ds / rate), "de": repr((ds + plen) / rate), "sim": sim}
            o["rs"], o["re"] = repr(s / rate), repr((s + plen) / rate)
            o["means"], o["stds"], o["energy"] = [i, 11, 12], [i, 13], [i, 14, 15]
            coarse.append(o)
            near = float(o["sim"])
            newsim.append(repr(near + r.choice([-1, 1]) * 10.0 ** -r.randint(2, 12)) if r.random() < .3 else r.choice(["0.5", "0.25", "0.75", "1", "0.6", "0.4", "-0.5"]))
            fail.append(r.random() < .02)
        cases.append({"op": "realign", "rate": rate, "ref": ref, "deg": deg, "coarse": coarse,
                      "newsim": newsim, "fail": fail})
    ctx.drive_and_judge(drv, cases, "PatchTrace", "RealignViolations", "fine realignment vs PatchMatch.tla")
