"""Shared by C04, C09, C10 (spec/Lifecycle.tla): options, signals, baselines."""
import json
import os

import vp

M = os.path.join(vp.REPO, "model")
SVR = os.path.join(M, "libsvm_nu_svr_model.txt")
LATTICE = os.path.join(M, "lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400_train1_7_raw.tflite")
JUNK = os.path.join(vp.REPO, "README.md")
MISSING = "/nonexistent/model.txt"
KIND = {SVR: "svr", LATTICE: "lattice", JUNK: "junk", MISSING: "missing", "": "missing"}


def opt(model=SVR, speech=False, unscaled=False, radius=10, lattice=False, noalign=False, norealign=False):
    return dict(model=model, speech=speech, unscaled=unscaled, radius=radius, lattice=lattice, noalign=noalign, norealign=norealign)


def init(o, q, **k):
    return dict(f="init", o=o, opt=q, kind=KIND[q["model"]], **k)


def sig(base, seed, n, rate, *ops, **k):
    return dict(base=base, seed=seed, n=n, rate=rate, ops=list(ops), **k)


def sigs(r, rate=8000, secs=1.25):
    """Signals by name; a pair's name tells its kind."""
    n = int(rate * secs)
    s = {}
    for i, b in enumerate(["speech", "tones", "burst"]):
        sd = r.randint(1, 999)
        s["r%d" % i] = sig(b, sd, n, rate)
        s["d%d" % i] = sig(b, sd, n, rate, ["noise", repr(round(r.uniform(.001, .05), 4))], ["lp", r.choice(["0.3", "0.7", "1"])])
    # a pair whose best match lies behind inserted content: found or not, depending on the radius
    b, gap = r.choice(["speech", "tones"]), r.choice([.9, 2.2, 5.5])
    s["gr"] = sig(b, 3, int(rate * 3.2), rate)
    s["gd"] = sig(b, 3, int(rate * 3.2), rate, ["insert", 2 * rate, int(rate * gap), "0.02"])
    s["late"] = sig("speech", 5, n - 700, rate, ["delay", 500])
    s["cut"] = sig("speech", r.randint(1, 999), n, rate, lost=n // 3)
    s["short"] = sig("speech", 6, int(rate * .3), rate)
    s["tiny"] = sig("speech", 7, 40, rate)
    s["one"] = sig("const", 8, 1, rate)
    s["empty"] = sig("speech", 9, 0, rate)
    s["fast"] = sig("speech", 10, n * 2, rate * 2)
    s["near"] = sig("speech", 11, n, rate + 1)
    s["wrap"] = sig("speech", 12, n, rate + 65536)
    s["silent"] = sig("silence", 1, n, rate)
    return s


def pair(r, kind):
    """A pair of that kind: (ref, deg, how it may be passed)."""
    g = ["r0", "d0", "r1", "d1", "r2", "d2", "late", "cut"]
    x = r.choice(g)
    if kind == "good":
        k = r.random()
        i = r.randrange(3)
        return ("gr", "gd") if k < .2 else ("r%d" % i, "d%d" % i) if k < .65 else (r.choice(["r0", "r1", "r2"]), r.choice(g)) if k < .9 else ("r0", "late")
    if kind == "short":        # a reference of less than one analysis window
        return r.choice([("tiny", x), ("one", x), ("tiny", "tiny"), ("one", "one"), ("tiny", "one"), ("one", "short")])
    if kind == "scant":        # little to compare: a score or an error, but nothing else
        return r.choice([("short", x), (x, "tiny"), (x, "one"), ("short", "short"), (x, "short"), ("short", "tiny")])
    if kind == "mismatch":
        return r.choice([("fast", x), (x, "fast"), ("near", x), (x, "near"), ("wrap", x), (x, "wrap")])
    if kind == "empty":
        return r.choice([("empty", x), (x, "empty"), ("empty", "empty")])
    return r.choice([("gone", x), (x, "gone"), ("gone", "gone2")])     # missing


def run_op(r, o, kind, as_=None):
    a, b = pair(r, kind)
    return dict(f="run", o=o, ref=a, deg=b, kind=kind, **{"as": as_ or r.choice(["sig", "path", "slot"])})


def need(cases_ops):
    """The (options, pair) combinations whose result the histories need."""
    out = {}
    for ops in cases_ops:
        st = {}
        for o in ops:
            if o["f"] == "init":
                st[o["o"]] = o["opt"]
            elif o["f"] == "create":
                st[o["o"]] = o.get("derived")
            elif o["f"] == "drop":
                st.pop(o["o"], None)
            elif o["kind"] == "good" and st.get(o["o"]):
                q = st[o["o"]]
                out[json.dumps([q, o["ref"], o["deg"]], sort_keys=True)] = (q, o["ref"], o["deg"])
    return [out[k] for k in sorted(out)]


def baseline(ctx, drv, signals, wanted):
    """What each pair gives under each option set, each in a process of its own."""
    cases = [{"fork": True, "sigs": {k: signals[k] for k in {a, b} if k in signals},
              "ops": [init(0, q), dict(f="run", o=0, ref=a, deg=b, kind="good", **{"as": "sig"})]} for q, a, b in wanted]
    recs = ctx.drive(drv, cases, timeout=120, keep=True)
    base = []
    for (q, a, b), r in zip(wanted, recs):
        h = r["out"][1].get("hash", r["out"][1]["code"]) if "out" in r else "crash" if not r.get("skipped") else "skipped"
        base.append({"opt": q, "ref": a, "deg": b, "hash": h})
    p = os.path.join(ctx.work, "base%d.json" % ctx.n)
    json.dump(base or [{"opt": opt(), "ref": "", "deg": "", "hash": ""}], open(p, "w"))
    return p


def used(signals, ops):
    names = {o[k] for o in ops for k in ("ref", "deg") if k in o}
    return {k: v for k, v in signals.items() if k in names}


def check(ctx, drv, signals, histories, what, fork=False):
    base = baseline(ctx, drv, signals, need(histories))
    cases = [{"sigs": used(signals, ops), "ops": ops, "fork": fork} for ops in histories]
    ctx.drive_and_judge(drv, cases, "LifeTrace", "LifeViolations", what, timeout=120, jenv={"BASE": base})


OPTS = {"audio": opt(), "speech": opt(speech=True, model=MISSING), "lattice": opt(speech=True, lattice=True, model=LATTICE),
        "badaudio": opt(model=MISSING), "badlattice": opt(speech=True, lattice=True, model=JUNK)}


def from_model(r, g, opts=OPTS):
    """A history enumerated by LifeMC, made concrete."""
    ops = []
    for o in g["ops"]:
        if o["f"] == "init":
            ops.append(init(o["o"], opts[o["opt"]]))
        elif o["f"] == "run":
            ops.append(run_op(r, o["o"], o["pair"]))
        else:
            ops.append(dict(o))
    return ops
