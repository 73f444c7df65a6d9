"""C11: the options determine the pipeline (spec/Pipeline.tla)."""
import pipeline as P


def run(ctx):
    drv = ctx.build("drv_pipe")["drv_pipe"]
    r = ctx.rng
    gen = P.plans(ctx)
    plan = {P.key(g["opt"]): g["plan"] for g in gen}
    cases = []

    def case(q, pair):
        q = dict(q, model=P.model(q))
        cases.append({"opt": q, "plan": plan[P.key(q)], "pairs": [pair], "fork": True})

    # every option combination: one run that gets through, and every way to fail
    for g in gen:
        if g["failed"] == "":
            for _ in range(ctx.scale(1, 6)):
                case(g["opt"], P.any_pair(r, rates=(8000, 8000, 16000), secs=(1.1, 1.8)))
        else:
            p = P.failing(r, g["opt"], g["failed"], g["at"])
            if p and r.random() < ctx.scale(.5, 1):
                case(g["opt"], p)
    for _ in range(ctx.scale(150, 5000)):
        case(P.options(r), P.any_pair(r))
    for rate in (44100, 48000, 22050, 32000):
        for _ in range(ctx.scale(2, 20)):
            case(P.options(r), P.any_pair(r, rates=(rate,), secs=(1.1, 1.6)))
    for i in range(ctx.scale(4, 40)):                       # long recordings: many patches
        case(P.options(r, radius=r.choice([1, 2, 10]), speech=i % 2 == 0), P.any_pair(r, rates=(8000,), secs=(13, 17)))
    ctx.drive_and_judge(drv, cases, "PipeTrace", "PlanRunViolations", "manager vs the stages of Pipeline.tla", timeout=150)
