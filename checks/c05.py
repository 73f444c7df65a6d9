"""C05: instances used from different threads do not interfere (spec/Conc.tla)."""
import json
import os

import life
import vp


def run(ctx):
    drv = ctx.build("drv_conc")["drv_conc"]
    r = ctx.rng
    inv = ["OneInside", "NoDeadlock", "LogIsLockBehaviour", "OwnObject", "Case"]
    gen = ctx.generate("ConcMC", spec="Spec", consts={"N": 2, "MaxLen": 2, "Emit": True}, invariants=inv, what="ConcMC two threads, every schedule")
    gen3 = ctx.generate("ConcMC", spec="Spec", consts={"N": 3, "MaxLen": ctx.scale(1, 2), "Emit": True}, invariants=inv,
                        what="ConcMC three threads, every schedule") if not ctx.thorough else []
    ctx.mc("ConcMC", spec="Fair", consts={"N": ctx.scale(2, 3), "MaxLen": 2, "Emit": False}, invariants=["OneInside", "NoDeadlock", "OwnObject"],
           properties=["Everybody"], view="NoHist", what="ConcMC progress under fairness")
    if ctx.thorough:
        gen3 = ctx.generate("ConcMC", spec="Spec", consts={"N": 2, "MaxLen": 3, "Emit": True}, invariants=inv, what="ConcMC two threads, three operations")
    other = os.path.join(ctx.work, "other.model")
    open(other, "w").write("svm_type nu_svr\nkernel_type rbf\ngamma 0.25\nnr_class 2\ntotal_sv 3\nrho -2.5\nSV\n"
                           "0.7 1:0.1 2:0.9 \n-0.4 1:0.5 3:0.25 \n-0.3 2:1 4:0.75 \n")
    files = {"load": [life.SVR, other, other], "badload": [life.MISSING, life.JUNK]}
    signals = {k: v for k, v in life.sigs(r).items() if k[0] in "rd"}

    def concrete(p):
        ops = []
        for f in p:
            if f in files:
                ops.append({"f": "load", "o": 0, "path": r.choice(files[f])})
            elif f == "predict":
                ops.append({"f": "predict", "o": 0, "x": [repr(round(r.random(), 2)) for _ in range(r.choice([4, 32]))]})
            else:
                ops.append({"f": "free", "o": 0})
        return ops

    # comparisons so small that ThreadSanitizer remembers all a thread did
    for p, secs in (("t", 1.0), ("u", .7)):
        signals.update({p + k: v for k, v in life.sigs(r, rate=400, secs=secs).items() if k[0] in "rd"})
    for p, rate, secs in (("l", 400, 24), ("m", 8000, .3), ("x", 8000, 1.1)):
        signals.update({p + k: v for k, v in life.sigs(r, rate=rate, secs=secs).items() if k in ("r0", "d0", "r1", "d1")})

    def compare(k, tiny=""):
        """Initialise, compare, perhaps again."""
        q = life.OPTS[k]
        if tiny:
            q = dict(q, radius=1)
            tiny = "u" if q["speech"] else "t"
        a, b = r.choice([("r0", "d0"), ("r1", "d1"), ("r2", "d2"), ("r0", "d1")])
        a, b = tiny + a, tiny + b
        ops = [{"f": "init", "o": 1, "opt": q} if r.random() < .7 else {"f": "create", "o": 1, "opt": dict(q, model=q["model"] if os.path.exists(q["model"]) else life.LATTICE), "ref": a},
               {"f": "run", "o": 1, "ref": a, "deg": b}]
        if r.random() < .3:
            ops += [{"f": "free", "o": 1}, {"f": "load", "o": 0, "path": r.choice(sum(files.values(), []))}]
        return ops

    def piece(k, size):
        """A single part of a comparison, on signals of that size."""
        ref, deg = size + "r" + r.choice("01"), size + "d" + r.choice("01")
        if k == "align":
            return {"f": "align", "o": 2, "ref": ref, "deg": deg}
        if k == "spectrogram":
            q = r.choice([(True, 21), (False, 32)])
            return {"f": "spectrogram", "o": 2, "ref": ref, "speech": q[0], "bands": q[1]}
        if k == "wav":
            return {"f": "wav", "o": 2, "ref": ref}
        if k == "fft":
            n = r.choice([20, 500, 20000, 40000])
            return {"f": "fft", "o": 2, "n": n, "go": n < 1000 or size != "m", "x": life.sig("noise", 3, n, 8000)}
        i = r.randrange(3)
        return {"f": "pairs", "o": 2, "name": "b%d.csv" % i, "text": "reference,degraded\n" + "".join("a%d%d.wav,b%d.wav\n" % (i, x, x) for x in range(40 * i))}

    PIECES = ["align", "spectrogram", "wav", "pairs", "fft"]
    cases = []

    def case(threads, schedule, **k):
        used = {o[x] for p in threads for o in p for x in ("ref", "deg") if x in o}
        cases.append(dict(fork=True, threads=threads, keys=[json.dumps(p, sort_keys=True) for p in threads], schedule=schedule,
                          sigs={s: signals[s] for s in used}, **k))

    for g in r.sample(gen, min(len(gen), ctx.scale(500, 100000))) + r.sample(gen3, min(len(gen3), ctx.scale(300, 6000))):
        case([concrete(p) for p in g["progs"]], g["sched"])
    for _ in range(ctx.scale(14, 200)):      # whole comparisons under random schedules
        n = r.choice([2, 2, 3])
        progs = [compare(r.choice(["audio", "speech", "lattice", "audio"])) for _ in range(n)]
        case(progs, [r.randrange(n) for _ in range(12)])
    for _ in range(ctx.scale(10, 100)):      # and under whatever schedule the machine picks
        n = r.choice([3, 4, 5])
        case([sum((concrete(("load", "predict")) + compare(r.choice(["audio", "speech", "lattice"])) for _ in range(2)), []) for _ in range(n)], [], jitter=r.choice([0, 1, 3]))

    for i in range(ctx.scale(24, 300)):      # parts of comparisons, whenever the machine runs them
        n = r.choice([2, 3, 4])
        case([[piece(PIECES[i % 5] if r.random() < .7 else r.choice(PIECES), r.choice("rlmx").replace("r", "")) for _ in range(r.randint(2, 6))] for _ in range(n)], [])

    def baseline(cs, exe):
        progs = {k: p for c in cs for k, p in zip(c["keys"], c["threads"])}
        keys = sorted(progs)
        recs = ctx.drive(exe, [{"fork": True, "alone": progs[k], "sigs": signals} for k in keys], timeout=120, keep=True)
        p = os.path.join(ctx.work, "seq%d.json" % ctx.n)
        json.dump([{"key": k, "out": x.get("out", [])} for k, x in zip(keys, recs)], open(p, "w"))
        return p

    ctx.drive_and_judge(drv, cases, "ConcTrace", "ConcViolations", "schedules replayed, vs Conc.tla", timeout=150, jenv={"BASE": baseline(cases, drv)})
    # the same under a build that notices unsynchronised accesses
    drv = ctx.build("drv_conc", flavour="_tsan")["drv_conc"]
    heavy, cases = cases, []
    for g in r.sample(gen, ctx.scale(24, 300)):
        case([concrete(p) for p in g["progs"]], g["sched"])
    for m in (["audio", "audio"], ["speech", "speech"], ["lattice", "speech"], ["audio", "lattice"]) * ctx.scale(1, 8):
        case([compare(k) for k in m], [])
    for m in (["audio", "audio"], ["speech", "speech"], ["lattice", "speech"], ["audio", "lattice"], ["speech", "audio"], ["audio", "audio"]) * ctx.scale(4, 30):
        # one after the other as well: nothing but the library's own locks may order them
        case([compare(k, "t") for k in m], r.choice([[], [0] * 6, [1] * 6, [r.randrange(2) for _ in range(8)]]))
    for i in range(ctx.scale(20, 200)):
        case([[piece(PIECES[i % 5], "l" if i % 10 == 0 else "m") for _ in range(r.choice([1, 2]))] for _ in range(2)], r.choice([[], [0] * 6, [1] * 6]))
    ctx.drive_and_judge(drv, cases, "ConcTrace", "ConcViolations", "recorded under ThreadSanitizer, vs Conc.tla", timeout=200,
                        jenv={"BASE": baseline(cases, drv)}, env={"TSAN_OPTIONS": "exitcode=0:report_bugs=1:history_size=7"})
