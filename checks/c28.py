"""C28: the lattice mapping feeds every feature to its own input (spec/Mapping.tla)."""
import json
import os

GOOD = dict(file=1, path="good.tflite", text="\x1c\x00\x00\x00TFL3 rest of the model")
BAD = [dict(path="absent.tflite"), dict(path="empty", text=""), dict(path="junk", text="this is not a flatbuffer at all"),
       dict(path="short", text="TFL3"), dict(path="/")]


def feats(r):
    def v():
        k = r.random()
        if k < .1:
            return ["0"] * 21
        if k < .2:
            return ["1"] * 21
        if k < .3:
            return [repr(r.choice([-1, 1]) * float("%.6g" % 10 ** r.uniform(-12, 8))) for _ in range(21)]
        return [repr(round(r.uniform(-1, 60 if k > .8 else 1), r.choice([2, 6, 12]))) for _ in range(21)]
    return dict(x=v(), x10=v(), xs=v(), xe=v())


def run(ctx):
    drv = ctx.build("drv_map")["drv_map"]
    r = ctx.rng
    mp = os.path.join(ctx.work, "models.json")
    json.dump([], open(mp, "w"))
    cases = []
    n = ctx.scale(4, 5)
    for g in ctx.generate("MapMC", spec="Spec", consts={"MaxOps": n, "Kind": "lattice"},
                          invariants=["OwnHistoryOnly", "AsksAnswerable", "Case"], what="MapMC lattice histories of %d operations" % n):
        ops = []
        for o in g["ops"]:
            if o["f"] == "lattice":
                ops.append(dict(f="lattice", o=o["o"], bands=21, **(GOOD if o["file"] else dict(file=0, **r.choice(BAD)))))
            else:
                ops.append(dict(f="lquality", o=o["o"], **feats(r)))
        cases.append({"ops": ops})
    for _ in range(ctx.scale(150, 2500)):
        ops, have = [], set()
        for _ in range(r.randint(2, 12)):
            o = r.randrange(4)
            if o in have and r.random() < .85:
                ops.append(dict(f="lquality", o=o, **feats(r)))
            else:
                g = r.random() < .8
                ops.append(dict(f="lattice", o=o, bands=21, **(GOOD if g else dict(file=0, **r.choice(BAD)))))
                (have.add if g else have.discard)(o)
        cases.append({"ops": ops})
    # one feature at a time
    for i in range(84):
        f = {k: ["0"] * 21 for k in ("x", "x10", "xs", "xe")}
        f[("x", "x10", "xs", "xe")[i // 21]][i % 21] = "0.75"
        cases.append({"ops": [dict(f="lattice", o=0, bands=21, **GOOD), dict(f="lquality", o=0, **f)]})
    ctx.drive_and_judge(drv, cases, "MapTrace", "MapViolations", "histories vs Mapping.tla", jenv={"MODELS": mp})
    ctx.assumptions.append("TensorFlow Lite is replaced by a recording stand-in: the trained lattice itself is not evaluated")
