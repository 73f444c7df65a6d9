"""C08: command-line options (spec/Cli.tla)."""
import json
import os

import life
import vp

NAME = dict(ref="reference_file", deg="degraded_file", batch="batch_input_csv", model="similarity_to_quality_model", csv="results_csv",
            debug="output_debug", verbose="verbose", speech="use_speech_mode", unscaled="use_unscaled_speech_mos_mapping",
            radius="search_window_radius", lattice="use_lattice_model", noalign="disable_global_alignment", norealign="disable_realignment")


def arg(r, k, v, sub=lambda x: x):
    """One option setting in one of the accepted spellings."""
    n, d = NAME[k], r.choice(["--", "--", "-"])
    if isinstance(v, bool):
        t = r.random()
        if t < .5:
            return [d + n if v else d + "no" + n]
        return ["%s%s=%s" % (d, n, r.choice(["true", "1", "t", "yes", "y"] if v else ["false", "0", "f", "no", "n"]))]
    v = sub(str(v))
    return [d + n + "=" + v] if r.random() < .6 or v == "" or v.startswith("-") else [d + n, v]


def files(present):
    return sorted(p[2:] for p in present)


def run(ctx):
    bins = ctx.build("drv_cli", "drv_mgr", "visqol")
    drv, exe = bins["drv_cli"], bins["visqol"]
    r = ctx.rng
    gen = ctx.generate("CliMC", spec="Spec", consts={"MaxExtra": 0}, invariants=["ExistingHelps", "BatchWins", "PlainDefaults", "LastWins", "Case"],
                       what="CliMC every combination of files")
    more = ctx.generate("CliMC", spec="Spec", consts={"MaxExtra": ctx.scale(1, 2)}, invariants=["ExistingHelps", "BatchWins", "LastWins", "Case"],
                        what="CliMC with further options")
    more = r.sample(more, min(len(more), ctx.scale(2500, 40000)))
    # names under which nothing can be looked up: too long, a link to itself
    odd = ["@/" + "n" * 300, "@/ref/" + "n" * 256, "@/" + "deep/" * 1000, "@/loop", "@/loop/ref", "@/ref/x"]
    texts = ["reference,degraded\nx.wav,y.wav\n", "h\na,b\r\nc,d", "", "h\n\na,b,c\nd\n", "x,y"]
    cases = []

    def case(opts, present, **more):
        a = []
        for o in opts:
            a += arg(r, o["opt"], o["val"])
        if r.random() < .1:
            a += r.choice([["--", "--verbose"], ["positional"]])
        t = r.choice(texts)
        cases.append({"fork": True, "op": "parse", "opts": opts, "args": a, "make": files(present), "texts": {"batch": t}, **more})

    for g in gen + more:
        case(g["args"], g["present"])
    for _ in range(ctx.scale(600, 10000)):
        g = r.choice(gen)
        opts = list(g["args"])
        for _ in range(r.randint(0, 8)):
            k = r.choice(["csv", "debug", "verbose", "speech", "unscaled", "radius", "lattice", "noalign", "norealign", "radius", "ref", "deg", "model"])
            v = r.choice([0, 1, 60, 7, -3, 2147483647, 1000]) if k == "radius" else r.choice(["@/c0", "", "/tmp/x y.csv", "rel/é.json"]) if k in ("csv", "debug") \
                else "@/" + r.choice([k, k, "ref", "deg", "model", "batch"]) if k in ("ref", "deg", "model") else r.random() < .5
            if k in ("ref", "deg", "model", "csv", "debug") and r.random() < .1:
                v = r.choice(odd)
            opts.insert(r.randint(0, len(opts)), {"opt": k, "val": v})
        case(opts, g["present"])
    for k in ("ref", "deg", "batch", "model"):
        for v in odd:
            case([{"opt": x, "val": "@/" + x} for x in r.choice([("ref", "deg"), ("ref", "deg", "model")])] + [{"opt": k, "val": v}],
                 ["@/ref", "@/deg", "@/model", "@/cwd/model/libsvm_nu_svr_model.txt"])
    for _ in range(ctx.scale(60, 600)):  # the working directory was removed
        g = r.choice(gen + more)
        case(g["args"], [p for p in g["present"] if not p.startswith("@/cwd/")], nocwd=True)
    ctx.drive_and_judge(drv, cases, "CliTrace", "ParseViolations", "command lines vs Cli.tla", jenv={"BASE": os.devnull})

    # the program: options reach the comparison
    signals = life.sigs(r)
    n = ctx.scale(70, 1200)
    runs, want = [], []
    for _ in range(n):
        o = {}
        for k, v in [("speech", True), ("speech", True), ("unscaled", True), ("lattice", False), ("lattice", False), ("lattice", True), ("noalign", True), ("norealign", True),
                     ("radius", r.choice([0, 2, 5, 10, -1]))]:
            if r.random() < .45:
                o[k] = v
        m = r.choice([None, None, None, life.SVR, life.LATTICE, life.JUNK])
        if m:
            o["model"] = m
        speech, lattice = o.get("speech", False), o.get("lattice", True)
        q = life.opt(model=m or (life.LATTICE if speech else life.SVR), speech=speech, unscaled=o.get("unscaled", False),
                     radius=o.get("radius", 60), lattice=lattice, noalign=o.get("noalign", False), norealign=o.get("norealign", False))
        k = life.KIND[q["model"]]
        ok = (not lattice or k == "lattice") if speech else k == "svr"
        i = r.randrange(3)
        a, b = r.choice([("r%d" % i, "d%d" % i), ("r0", "late"), ("r%d" % i, "d0"), ("r0", "d1"), ("r%d" % i, "r%d" % i)])
        if r.random() < .08:
            b = "gone"
        opts = [{"opt": x, "val": y} for x, y in o.items()] + [{"opt": "ref", "val": "@/%s.wav" % a}, {"opt": "deg", "val": "@/%s.wav" % b}]
        r.shuffle(opts)
        args = ["--results_csv=@/out.csv", "--output_debug=@/out.json"]
        for x in opts:
            args += arg(r, x["opt"], x["val"])
        runs.append((opts, args, q, ok, a, b))
        if ok and b != "gone":
            want.append((q, a, b))
    hash_ = lambda x: x["out"][1].get("hash", "") if "out" in x else ""
    recs = ctx.drive(bins["drv_mgr"], [{"fork": True, "sigs": {k: signals[k] for k in (a, b)},
                                        "ops": [life.init(0, q), dict(f="run", o=0, ref=a, deg=b, kind="good", **{"as": "path"})]} for q, a, b in want], timeout=120, keep=True)
    base = [{"key": json.dumps(q, sort_keys=True), "ref": "@/%s.wav" % a, "deg": "@/%s.wav" % b, "ok": bool(hash_(x)), "hash": hash_(x)}
            for (q, a, b), x in zip(want, recs)]
    path = os.path.join(ctx.work, "managers.json")
    json.dump(base, open(path, "w"))
    cases = []
    for opts, args, q, ok, a, b in runs:
        dflt = ["cwd/model/libsvm_nu_svr_model.txt", "cwd/model/" + os.path.basename(life.LATTICE)]
        present = ["%s.wav" % k for k in (a, b) if k in signals] + dflt + ([q["model"]] if os.path.exists(q["model"]) else [])
        cases.append(dict(op="main", exe=exe, sigs={k: signals[k] for k in {a, b} if k in signals}, args=args, texts={}, cwd=vp.REPO, opts=opts,
                          model_ok=ok, key=json.dumps(q, sort_keys=True), ref="@/%s.wav" % a, deg="@/%s.wav" % b, make=present))
    ctx.drive_and_judge(drv, cases, "CliTrace", "SingleViolations", "program runs vs the manager under the same options", timeout=120, jenv={"BASE": path})
