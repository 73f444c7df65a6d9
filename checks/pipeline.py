"""Shared by C03, C11, C23, C31, C32 (spec/Pipeline.tla): whole comparisons."""
import json
import os

import life
import vp

INV = ["NothingMissing", "ReferenceUntouched", "LevelledBeforeAnalysis", "BothPrepared", "ScoreOnlyAtEnd", "FineUnlessDisabled",
       "LagOnlyIfAligned", "LatticeOnlyInSpeech"]
KEYS = ("speech", "unscaled", "lattice", "noalign", "norealign", "radius")


def plans(ctx):
    """Every choice of options with its plan, and every way through it."""
    gen = ctx.generate("PipelineMC", spec="Spec", consts={"Radii": [0, 1, 2, 10, 60]}, invariants=INV + ["Case"],
                       properties=["Ends", "NoWayBack"], what="PipelineMC every option, every failing stage")
    return gen


def model(q):
    return life.LATTICE if q["speech"] and q["lattice"] else life.SVR


def key(q):
    return tuple(q[k] for k in KEYS)


def options(r, **k):
    q = dict(speech=r.random() < .5, unscaled=r.random() < .3, lattice=r.random() < .3, noalign=r.random() < .3,
             norealign=r.random() < .3, radius=r.choice([0, 1, 2, 10, 60]))
    q.update(k)
    q["model"] = model(q)
    return q


BASES = ["speech", "speech", "tones", "burst", "noise", "silence", "const", "impulse", "square"]


def damage(r, n):
    return r.choice([["gain", repr(round(r.uniform(.01, 2), 3))], ["delay", r.randrange(0, n // 2)], ["cut", r.randrange(0, n // 2)],
                     ["trim", r.randrange(n // 3, n + 1)], ["pad", r.randrange(0, n)], ["noise", repr(round(10 ** r.uniform(-4, 0), 5))],
                     ["lp", repr(round(r.uniform(.05, 1), 3))], ["clip", repr(round(r.uniform(.01, .5), 3))],
                     ["mute", r.randrange(0, n), r.randrange(0, n)], ["neg"], ["dc", repr(round(r.uniform(-.3, .3), 3))]])


def any_pair(r, rates=(8000, 8000, 8000, 16000, 11025), secs=(.5, 2)):
    rate = r.choice(rates)
    n = int(rate * r.uniform(*secs))
    ops = lambda: [damage(r, n) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    b, sd = r.choice(BASES), r.randint(1, 9999)
    ref = life.sig(b, sd, n, rate, *([] if r.random() < .7 else ops()))
    if r.random() < .1:             # an excerpt, early or late
        k, d = int(n * r.uniform(.08, .4)), int(n * r.uniform(.05, .45))
        deg = life.sig(b, sd, n, rate, *r.choice([[["delay", d], ["trim", d + k]], [["cut", d], ["trim", k]]]))
    elif r.random() < .75:
        deg = life.sig(b, sd, n, rate, *ops())
    else:
        deg = life.sig(r.choice(BASES), r.randint(1, 999), int(n * r.uniform(.2, 2)), rate, *ops())
    return {"ref": ref, "deg": deg}


def failing(r, q, stage, at):
    """A pair whose comparison under q fails at that stage, or None."""
    rate = r.choice([8000, 16000])
    w = int(rate * .08)
    need = (29 if q["speech"] else 45)          # columns for one patch
    base = lambda n, **k: life.sig(r.choice(["speech", "noise", "burst"]), r.randint(1, 999), n, rate)
    cols = lambda c: w + (c - 1) * (w // 4) + r.randrange(0, w // 4)
    if stage == "analyse":
        if at == (1 if q["noalign"] else 2):    # the reference
            return {"ref": base(r.choice([1, w // 2, w])), "deg": base(cols(need + 20)), "want": "INVALID_ARGUMENT"}
        if q["noalign"]:
            return {"ref": base(cols(need + 20)), "deg": base(r.choice([1, w // 2, w])), "want": "INVALID_ARGUMENT"}
    if stage == "segment":
        return {"ref": base(cols(r.choice([2, need // 2, need - 1]))), "deg": base(cols(need + 20)), "want": "INVALID_ARGUMENT"}
    if stage == "match" and q["radius"] == 0 and q["noalign"] and q["norealign"]:
        return {"ref": life.sig("noise", 3, cols(need + 90), rate, ["mute", 0, 1]), "deg": base(cols(r.choice([2, 3]))), "want": "CANCELLED"}
    return None
