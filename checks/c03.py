"""C03: results are well-formed and consistent (spec/Pipeline.tla)."""
import pipeline as P


def run(ctx):
    drv = ctx.build("drv_pipe")["drv_pipe"]
    r = ctx.rng
    P.plans(ctx)
    cases = [{"opt": P.options(r), "pairs": [P.any_pair(r)], "fork": True} for _ in range(ctx.scale(500, 12000))]
    # long enough for the lowest tenth of the patches to be several
    for _ in range(ctx.scale(12, 120)):
        cases.append({"opt": P.options(r), "pairs": [P.any_pair(r, rates=(8000,), secs=(8, 20))], "fork": True})
    for _ in range(ctx.scale(10, 200)):
        cases.append({"opt": P.options(r), "pairs": [P.any_pair(r, rates=(32000, 44100, 48000), secs=(1, 2))], "fork": True})
    ctx.drive_and_judge(drv, cases, "PipeTrace", "ConsistViolations", "results vs Pipeline.tla", timeout=150)
