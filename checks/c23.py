"""C23: the playback level of the degraded signal does not matter (spec/Similarity.tla)."""
from c25 import pipe
import life
import pipeline as P


def run(ctx):
    drv = ctx.build("drv_sim")["drv_sim"]
    r, cases = ctx.rng, []
    gen = ctx.generate("LevelMC", spec="Spec", consts={"Gains": ["0.5", "3"],
                                                       "N": ctx.scale(3, 4)},
                       invariants=["SameAsUntouched", "PowerOfReference", "SilenceKept", "Case"], what="LevelMC")
    gains = ["0.5", "2", "3.7", "0.001", "1000"]
    for g in r.sample(gen, min(len(gen), ctx.scale(500, 5000))):
        cases.append({"op": "level", "ref": g["r"], "deg": g["d"], "rref": 8000, "rdeg": 8000,
                      "gains": r.sample(gains, 2)})

    def sig():
        n, a = r.randint(1, 60), 10 ** r.uniform(-7, 3)
        z = r.choice([0, 0, .5, .9, 1])
        return [repr(0.0 if r.random() < z else r.uniform(-a, a)) for _ in range(n)]
    for _ in range(ctx.scale(400, 4000)):
        a, b = sig(), sig()
        if r.random() < .05:
            b = ["1e-200"] * 4   # power underflows: as good as silent
        rr = r.choice([1, 8000, 48000])
        cases.append({"op": "level", "ref": a, "deg": b, "rref": rr, "rdeg": r.choice([rr, 16000]),
                      "gains": [] if b[0] == "1e-200" else r.sample(gains, 3)})
    # a whole comparison with recording stand-ins: what is analysed is the matched signal
    for _ in range(ctx.scale(60, 600)):
        cases.append(pipe(r))
    ctx.drive_and_judge(drv, cases, "SimTrace", "SimViolations", "level matching vs Similarity.tla")
    # whole comparisons of the same pair at several playback levels
    drv = ctx.build("drv_pipe")["drv_pipe"]
    cases = []
    for _ in range(ctx.scale(60, 1500)):
        rate = r.choice([8000, 8000, 16000])
        n, sd, b = int(rate * r.uniform(1.2, 2)), r.randint(1, 9999), r.choice(["speech", "noise"])
        ref = life.sig(b, sd, n, rate, raw=True)
        # a real degradation: identical patches tie, and rounding decides which of two equal similarities is reported
        ops = [r.choice([["noise", "0.01"], ["noise", "0.2"], ["lp", "0.4"]])]
        ops += [r.choice([["noise", "0.01"], ["lp", "0.4"], ["clip", "0.1"], ["delay", r.randrange(0, n // 3)],
                         ["cut", r.randrange(0, n // 3)], ["trim", r.randrange(2 * n // 3, n)]]) for _ in range(r.randint(0, 2))]
        gs = [None] + r.sample(["0.5", "2", "3.7", "0.001", "1000", "0.03125", "1e-6"], 2)
        cases.append({"opt": P.options(r), "fork": True, "pairs": [
            {"ref": ref, "deg": life.sig(b, sd, n, rate, *(ops + ([["gain", g]] if g else [])), raw=True)} for g in gs]})
    # a silent degraded signal: no score out of range
    for _ in range(ctx.scale(12, 60)):
        n, rate = r.randint(10000, 16000), 8000
        cases.append({"opt": P.options(r), "fork": True, "pairs": [{"ref": life.sig("speech", r.randint(1, 99), n, rate),
                                                                    "deg": life.sig("silence", 1, r.randint(9000, 16000), rate)}]})
    ctx.drive_and_judge(drv, cases, "PipeTrace", "GainViolations", "comparisons at several levels vs Pipeline.tla", timeout=150)
