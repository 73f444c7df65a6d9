"""C31: a signal compared with itself, at any level and delayed (spec/Pipeline.tla)."""
import life
import pipeline as P


def run(ctx):
    drv = ctx.build("drv_pipe")["drv_pipe"]
    r = ctx.rng
    gen = [g["opt"] for g in P.plans(ctx) if g["failed"] == ""]
    cases = []

    def case(q, base, rate, secs, gain=None, delay=0):
        n, sd = int(rate * secs), r.randint(1, 9999)
        # without noise the quiet parts of speech look alike
        floor = [["noise", "0.003"]] if base == "speech" and r.random() < .6 else []
        ref = life.sig(base, sd, n, rate, *floor, raw=True)
        ops = floor + ([["gain", gain]] if gain else []) + ([["delay", delay]] if delay else [])
        short = secs < 1.2
        cases.append({"opt": dict(q, model=P.model(q)), "fork": True, "pairs": [
            {"ref": ref, "deg": life.sig(base, sd, n, rate, *ops, raw=True), "delay": delay, "short": short,
             "distinct": base == "noise" or floor != []}]})

    bases = ["speech", "noise", "speech", "tones", "burst", "square", "impulse", "const", "silence"]
    for q in gen:
        case(q, r.choice(bases), r.choice([8000, 8000, 16000]), r.uniform(1.2, 2), r.choice([None, None, "0.5", "0.01", "3"]))
    for _ in range(ctx.scale(60, 2000)):
        case(P.options(r), r.choice(bases), r.choice([8000, 11025, 16000]), r.uniform(.6, 3), r.choice([None, "0.2", "1.7", "1e-4", "-1"][:4]))
    for rate in (44100, 48000, 32000, 22050):
        for _ in range(ctx.scale(2, 20)):
            case(P.options(r), r.choice(bases), rate, r.uniform(1.2, 1.6), r.choice([None, "0.3"]))
    for _ in range(ctx.scale(120, 3000)):
        rate, secs = r.choice([8000, 8000, 16000, 11025, 12345]), r.uniform(1.2, 2.5)
        d = r.choice([1, 2, r.randint(1, 40), r.randint(1, int(rate * secs / 2) - 1)])
        case(P.options(r, noalign=False), r.choice(["speech", "noise", "burst"]), rate, secs, r.choice([None, None, "0.4"]), d)
    ctx.drive_and_judge(drv, cases, "PipeTrace", "LawViolations", "identity and delay laws vs Pipeline.tla", timeout=150)
