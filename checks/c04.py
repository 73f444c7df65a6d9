"""C04: a comparison depends only on its inputs and options (spec/Lifecycle.tla)."""
import life
from life import init, opt


def run(ctx):
    drv = ctx.build("drv_mgr")["drv_mgr"]
    r = ctx.rng
    n = ctx.scale(4, 5)
    gen = ctx.generate("LifeMC", spec="Spec", consts={"Objs": [0, 1], "MaxOps": n, "OptIds": ["audio", "speech"], "PairKinds": ["good", "short"]},
                       invariants=["UsableIffLastInitOk", "Case"], properties=["RunsLeaveNoTrace"], what="LifeMC two objects, %d operations" % n)
    gen = [g for g in gen if sum(o["f"] == "run" and o["pair"] == "good" for o in g["ops"]) >= 2 and g["ops"][0]["f"] == "init"]
    signals = life.sigs(r)
    signals.update({"h" + k: v for k, v in life.sigs(r, rate=11025, secs=1.1).items()})
    # rates that differ by a little
    signals.update({"n" + k: v for k, v in life.sigs(r, rate=8001 + r.randrange(7), secs=1.2).items()})
    # signal objects may hold any values: off the 16-bit grid, beyond full scale
    signals["or"] = life.sig("speech", 11, 10000, 8000, ["gain", "31.7"], raw=True)
    signals["od"] = life.sig("speech", 11, 10000, 8000, ["noise", "0.03"], ["gain", "13.1"], raw=True)
    signals["long"] = life.sig("speech", 77, 20000, 8000)
    hist = [life.from_model(r, g) for g in r.sample(gen, min(len(gen), ctx.scale(40, 1500)))]
    opts = list(life.OPTS.values())[:3] + [opt(speech=True, unscaled=True), opt(radius=3, norealign=True), opt(noalign=True),
                                           opt(speech=True, noalign=True, norealign=True, radius=25)]
    for _ in range(ctx.scale(45, 1200)):
        ops = []
        for o in (0, 1):
            ops.append(init(o, r.choice(opts)))
        for _ in range(r.randint(4, 9)):
            o = r.randrange(2)
            k = r.random()
            if k < .12:
                ops.append(init(o, r.choice(opts + [life.OPTS["badaudio"]]), fresh=r.random() < .3))
            elif k < .3:
                ops.append(life.run_op(r, o, r.choice(["short", "mismatch", "empty", "missing"])))
            else:
                p = life.run_op(r, o, "good")
                if r.random() < .35:
                    h = r.choice("hn")
                    p["ref"], p["deg"] = h + p["ref"], h + p["deg"]
                elif r.random() < .1:
                    p[r.choice(["ref", "deg"])] = "long"
                elif r.random() < .1:
                    p["deg"] = "silent"
                elif r.random() < .1:
                    p.update({"ref": r.choice(["or", "or", "r0"]), "deg": r.choice(["od", "od", "d1"]), "as": "sig"})
                ops.append(p)
                if r.random() < .4 and p["ref"] != "or" and p["deg"] != "od":
                    ops.append(dict(p, **{"as": r.choice(["sig", "path", "slot"])}))
        hist.append(ops)
    life.check(ctx, drv, signals, hist, "histories vs Lifecycle.tla")
    # through the API, interleaved with managers
    hist = []
    for _ in range(ctx.scale(12, 200)):
        ops = []
        for o in (0, 1):
            cfg = {"rate": 8000, "options": {"speech": bool(o), "override": True, "radius": 10}}
            if not o:
                cfg["options"]["model"] = life.SVR
            d = opt(model=life.SVR if not o else life.LATTICE, speech=bool(o))
            ops.append(dict(f="create", o=o, cfg=cfg, kind="svr" if not o else "missing", dflt=True, cwd=life.vp.REPO, am=life.SVR, sm=life.LATTICE, derived=d))
        for o in (2, 3):
            ops.append(init(o, r.choice(opts)))
        for _ in range(r.randint(4, 8)):
            p = life.run_op(r, r.randrange(4), "good")
            if r.random() < .15:
                p.update({"ref": "or", "deg": "od", "as": "sig"})
            if p["o"] < 2:
                p["f"] = "measure"
            ops.append(p)
        hist.append(ops)
    life.check(ctx, drv, signals, hist, "API and manager histories vs Lifecycle.tla")
