"""C09: the embedding API accepts and rejects configurations as documented (spec/Lifecycle.tla)."""
import life
from life import opt

SUBST = {True: {"good": life.LATTICE, "other": life.SVR, "missing": life.MISSING, "junk": life.JUNK},
         False: {"good": life.SVR, "other": life.LATTICE, "missing": life.MISSING, "junk": life.JUNK}}


def concrete(ctx, o, slot):
    """A create operation of ApiMC, made concrete."""
    cfg = {k: dict(v) if isinstance(v, dict) else v for k, v in o["cfg"].items()}
    if isinstance(cfg.get("options"), list):      # TLC prints the empty record as an empty sequence
        cfg["options"] = {}
    q = cfg.get("options", {})
    if "model" in q:
        q["model"] = SUBST[bool(q.get("speech"))][q["model"]]
    kind = life.KIND[q.get("model", "")]
    return dict(f="create", o=slot, cfg=cfg, kind=kind, dflt=o["dflt"], cwd=life.vp.REPO if o["dflt"] else "/",
                am=life.SVR, sm=life.LATTICE, derived=derived(cfg, o["dflt"]))


def derived(cfg, dflt):
    """The options to take baselines for (the specification derives its own)."""
    q = cfg.get("options", {})
    sp = q.get("speech", False)
    return opt(model=q.get("model") or (life.LATTICE if sp else life.SVR), speech=sp, unscaled=q.get("unscaled", False),
               radius=q.get("radius") or 60, lattice=q.get("lattice", False) if "options" in cfg else True)


def run(ctx):
    drv = ctx.build("drv_mgr")["drv_mgr"]
    r = ctx.rng
    inv = ["NeverWithoutRate", "AudioNeeds48kUnlessOverridden", "RadiusNeverZero"]
    all1 = ctx.generate("ApiMC", spec="Spec", consts={"MaxOps": 1, "Small": False}, invariants=inv + ["Case"], what="ApiMC every configuration")
    seq = ctx.generate("ApiMC", spec="Spec", consts={"MaxOps": ctx.scale(3, 4), "Small": True}, invariants=inv + ["Case"],
                       what="ApiMC orders of create and measure")
    signals = life.sigs(r)
    s48 = {"x" + k: v for k, v in life.sigs(r, rate=48000, secs=1.25).items() if k in ("r0", "d0", "r1", "d1", "tiny", "empty")}
    s16 = {"w" + k: v for k, v in life.sigs(r, rate=16000, secs=1.0).items() if k in ("r0", "d0", "r1", "d1", "tiny", "empty")}
    signals.update(s48)
    signals.update(s16)
    # long enough that the best match may lie outside a window of one patch
    signals.update({"y" + k: v for k, v in life.sigs(r, rate=8000, secs=3.5).items() if k in ("r0", "d0", "r1", "d1", "tiny", "empty")})
    signals["Gr"] = life.sig("speech", 3, 25600, 8000)
    signals["Gd"] = life.sig("speech", 3, 25600, 8000, ["insert", 16000, 35 * 8000 + 4000, "0.02"])
    pre = {8000: "", 16000: "w", 48000: "x", 48001: "x", 96000: "x"}

    def measure(slot, cfg, kind):
        x = pre.get(cfg.get("rate", 8000), "")
        if not x and cfg.get("options", {}).get("radius") == 1:
            x = "y"
        # different signals: where the best match lies depends on the window
        a, b = "r%d" % r.randrange(2), "d%d" % r.randrange(2)
        if kind == "short":
            a = "tiny"
        elif kind == "empty":
            a, b = r.choice([("empty", b), (a, "empty")])
        if kind == "good" and not x:
            rad = cfg.get("options", {}).get("radius") or 0
            if rad == 0 and nfar[0] and r.random() < .2:      # the default radius reaches far
                nfar[0] -= 1
                return dict(f="measure", o=slot, ref="Gr", deg="Gd", kind=kind)
            if r.random() < (.5 if rad > 1 else .1):
                return dict(f="measure", o=slot, ref="gr", deg="gd", kind=kind)
        return dict(f="measure", o=slot, ref=x + a, deg=x + b, kind=kind)

    nfar = [ctx.scale(4, 20)]
    hist = []
    for g in all1:
        c = concrete(ctx, g["ops"][0], 0)
        hist.append([c])
    hist = r.sample(hist, min(len(hist), ctx.scale(1200, 100000)))
    n48 = 0
    ones = [g for g in all1 if g["ops"][0]["cfg"].get("rate") in (8000, 48000) and isinstance(g["ops"][0]["cfg"].get("options"), dict)
            and g["ops"][0]["cfg"]["options"].get("radius") in (1, -3, 7, 20)]
    # configurations that are accepted, each measured with
    def plain(c):
        q = c.get("options")
        return isinstance(q, dict) and c.get("rate") in (8000, 16000) and q.get("speech") and not q.get("lattice") and "radius" in q
    sure = {}
    for g in all1:
        c = g["ops"][0]["cfg"]
        if plain(c):
            sure.setdefault((c["options"]["radius"], bool(c["options"].get("unscaled"))), []).append(g)
    for key in sorted(sure):
        for g in r.sample(sure[key], min(len(sure[key]), ctx.scale(2, 8))):
            c = concrete(ctx, g["ops"][0], 0)
            hist.append([c, measure(0, c["cfg"], "good"), measure(0, c["cfg"], "good")])
    for g in r.sample(seq, min(len(seq), ctx.scale(220, 4000))) + r.sample(all1, ctx.scale(60, 700)) + r.sample(ones, ctx.scale(40, 400)):
        ops, last = [], {}
        todo = list(g["ops"]) + ([{"f": "measure"}] if g["ops"][-1]["f"] == "create" else [])
        for o in todo:
            if o["f"] == "create":
                ops.append(concrete(ctx, o, 0))
                last = ops[-1]["cfg"]
            else:
                k = r.choice(["good", "good", "short", "empty"])
                if k == "good" and last.get("rate") == 96000:
                    k = "short"
                if k == "good" and last.get("rate") in (48000, 48001):
                    n48 += 1
                    if n48 > ctx.scale(25, 400):
                        k = "short"
                ops.append(measure(0, last, k))
        hist.append(ops)
    life.check(ctx, drv, signals, hist, "configurations and orders vs Lifecycle.tla")
