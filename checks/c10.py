"""C10: initialise first, then compatible non-empty signals (spec/Lifecycle.tla)."""
import life
from life import init, opt


def run(ctx):
    drv = ctx.build("drv_mgr")["drv_mgr"]
    r = ctx.rng
    inv = ["UsableIffLastInitOk"]
    kinds = ["good", "short", "scant", "mismatch", "empty", "missing"]
    ids = ["audio", "speech", "lattice", "badaudio", "badlattice"]
    n = ctx.scale(3, 4)
    gen = ctx.generate("LifeMC", spec="Spec", consts={"Objs": [0], "MaxOps": n, "OptIds": ids, "PairKinds": kinds},
                       invariants=inv + ["Case"], properties=["RunsLeaveNoTrace"], what="LifeMC one object, %d operations" % n)
    ctx.mc("LifeMC", spec="Spec", consts={"Objs": [0, 1], "MaxOps": ctx.scale(3, 4), "OptIds": ids, "PairKinds": ["good", "short"]},
           invariants=inv, properties=["RunsLeaveNoTrace"], what="LifeMC two objects")
    signals = life.sigs(r)
    good = [g for g in gen if any(o["f"] == "run" and o["pair"] == "good" for o in g["ops"])]
    other = [g for g in gen if not any(o["f"] == "run" and o["pair"] == "good" for o in g["ops"])]
    hist = [life.from_model(r, g) for g in r.sample(good, min(len(good), ctx.scale(150, 2500))) + r.sample(other, min(len(other), ctx.scale(300, 3000)))]
    # the same object under one option set after another, each used
    alts = [dict(life.OPTS["speech"], unscaled=True), dict(life.OPTS["speech"], noalign=True), dict(life.OPTS["speech"], norealign=True),
            dict(life.OPTS["speech"], radius=3), life.OPTS["speech"], dict(life.OPTS["audio"], norealign=True), dict(life.OPTS["audio"], noalign=True),
            life.OPTS["audio"], life.OPTS["lattice"], dict(life.OPTS["lattice"], unscaled=True)]
    for i in range(ctx.scale(24, 300)):
        ops, few = [], r.sample(alts[:5] if i % 3 else alts, 3)
        for q in few + r.sample(few, 2):
            ops.append(init(0, q))
            ops.append(dict(life.run_op(r, 0, "good"), ref="r0", deg=r.choice(["d0", "late"])))
        hist.append(ops)
    for _ in range(ctx.scale(40, 600)):
        ops = []
        for _ in range(r.randint(4, 10)):
            o = r.randrange(2)
            if r.random() < .35 or not ops:
                q = dict(life.OPTS[r.choice(ids)])
                q["radius"] = r.choice([10, 10, 0, -1, -60])
                ops.append(init(o, q, fresh=r.random() < .2))
            else:
                ops.append(life.run_op(r, o, r.choice(kinds)))
        hist.append(ops)
    # audio that is not WAV at all, through files
    for _ in range(ctx.scale(20, 100)):
        ops = [init(0, r.choice([opt(), opt(speech=True)]))]
        for _ in range(3):
            ops.append(dict(f="run", o=0, ref=r.choice(["junk", "r0"]), deg="junk", kind="garbage", **{"as": "path"}))
            ops.append(life.run_op(r, 0, "good"))
        hist.append(ops)
    signals["junk"] = {"file": life.JUNK}
    life.check(ctx, drv, signals, hist, "histories vs Lifecycle.tla")
