"""C34: what the process holds and needs, and memory safety (spec/Resources.tla)."""
import importlib
import json
import os
import random
import shutil
import struct
import subprocess
import wave

import c06
import c27
import c28
import life
import vp
from life import init, opt


class Behaviours(vp.Ctx):
    """Runs another property's check only as far as its generated cases: they
    are behaviours of its specification, to be run here under other eyes."""

    def __init__(self, ctx, pid, limit):
        self.outer, self.limit, self.collected = ctx, limit, []
        super().__init__(pid, "quick", ctx.seed)

    def build(self, *targets, flavour=""):
        return {t: t for t in targets}

    def mc(self, module, **kw):
        return None

    def generate(self, module, **kw):
        kw["what"] = "behaviours of " + kw.get("what", module)
        def mc(m, **k):
            r = self.outer.mc(m, **k)
            return r
        self.mc, saved = mc, self.mc
        try:
            return super().generate(module, **kw)
        finally:
            self.mc = saved

    def drive(self, exe, cases, **kw):
        return [{"skipped": True} for _ in cases]

    def judge(self, *a, **k):
        pass

    def drive_and_judge(self, exe, cases, module, op, what=None, consts=None, timeout=60, shards=8, env=None, args=(), jenv=None, per=4):
        cases = [c for c in cases if c.get("op") != "main"]     # those start other programs
        if len(cases) > self.limit:
            cases = self.rng.sample(cases, self.limit)
        self.collected.append((exe, cases, {"timeout": timeout, "args": args, "env": env, "what": what}))


def behaviours(ctx, pid, limit):
    b = Behaviours(ctx, pid, limit)
    try:
        importlib.import_module(pid.lower()).run(b)
    finally:
        shutil.rmtree(b.work, ignore_errors=True)
    return [x for x in b.collected if x[1]]


def unparsable(c):
    """How many ill-formed support-vector models each repetition tries to load."""
    n = 0
    for o in c.get("ops", [])[c.get("prefix", 0):]:
        if not isinstance(o, dict):
            return 0
        if o["f"] in ("load", "mapper"):
            n += o["file"] == 0 and ("text" in o or o["path"] == "/")
        elif o["f"] == "init":
            n += o["opt"]["model"] == life.JUNK and not o["opt"]["speech"]
        elif o["f"] == "create":
            q = o["cfg"].get("options", {})
            n += q.get("model") == life.JUNK and not q.get("speech") and o["cfg"].get("rate", 0) > 0
    return n


def lassos(ctx):
    """Histories on one object, the last part of which is repeated."""
    r, out = ctx.rng, []
    times = 6
    signals = life.sigs(r)
    signals["junk"] = {"file": life.JUNK}
    rate = 8000
    M = {"audio": life.OPTS["audio"], "speech": life.OPTS["speech"], "lattice": life.OPTS["lattice"]}
    B = [life.OPTS["badaudio"], life.OPTS["badlattice"], opt(model=life.JUNK), opt(model="")]
    for kind in ("manager", "api", "svr", "mapper", "lattice"):
        gen = ctx.generate("ResMC", spec="Spec", consts={"Kind": kind, "MaxPrefix": 1, "MaxLoop": ctx.scale(2, 3)},
                           invariants=["HoldsWhatItOwns", "Again", "OneFileAtATime", "Case"], what="ResMC " + kind)
        limit = ctx.scale(90 if kind in ("manager", "api") else 150, 1500)
        if len(gen) > limit:
            gen = r.sample(gen, limit)
        text = c27.model_text(r, 4, 3)
        for g in gen:
            ops, held = [], None
            for o in g["ops"]:
                if o["f"] == "init" and kind == "manager":
                    ops.append(init(0, M[o["to"]] if o["ok"] else r.choice(B)))
                elif o["f"] == "init":
                    cfg = {"rate": rate, "options": dict(speech=o["to"] == "speech", override=True, lattice=o["to"] == "lattice",
                                                         model={"audio": life.SVR, "speech": "", "lattice": life.LATTICE}[o["to"]], radius=10)}
                    if o["to"] != "audio":
                        cfg["options"]["speech"] = True
                    if not o["ok"]:
                        cfg = r.choice([{}, dict(cfg, rate=0), dict(cfg, options=dict(cfg["options"], speech=False, model=life.JUNK))])
                    ops.append(dict(f="create", o=0, cfg=cfg, cwd=vp.REPO))
                elif o["f"] in ("run", "measure"):
                    q = life.run_op(r, 0, "good" if o["ok"] else r.choice(["mismatch", "missing", "short", "empty", "scant"]))
                    if o["ok"]:
                        i = r.randrange(3)
                        q.update(ref="r%d" % i, deg="d%d" % i)
                    elif r.random() < .3:
                        q.update(ref=r.choice(["junk", "r0"]), deg="junk", **{"as": "path"})
                    q["f"] = o["f"]
                    ops.append(q)
                elif o["f"] == "drop" and kind == "svr":
                    ops.append(dict(f="free", o=0))
                    held = None
                elif o["f"] == "drop":
                    ops.append(dict(f="drop", o=0) if kind == "manager" else dict(f="create", o=0, cfg={}, cwd=vp.REPO, fresh=True))
                elif o["f"] == "load" and kind == "lattice":
                    ops.append(dict(f="lattice", o=0, bands=21, **(c28.GOOD if o["ok"] else dict(file=0, **r.choice(c28.BAD)))))
                elif o["f"] == "load":
                    d = dict(f="load" if kind == "svr" else "mapper", o=0, again=True)
                    d.update(dict(file=1, path="m", text=text) if o["ok"] else dict(file=0, **r.choice(c27.BAD)))
                    held = 3
                    ops.append(d)
                elif o["f"] == "train":
                    n = r.randint(2, 6)
                    ops.append(dict(f="train", o=0, set=1, again=True, obs=[[repr(round(r.uniform(-1, 1), 3)) for _ in range(3)] for _ in range(n)],
                                    targets=[repr(round(r.uniform(1, 5), 2)) for _ in range(n)], param={"C": "0.4", "nu": "0.6", "eps": "0.001", "gamma": repr(1 / 3)}))
                elif o["f"] == "ask":
                    x = lambda n: [repr(round(r.uniform(0, 1), 3)) for _ in range(n)]
                    if kind == "lattice":
                        ops.append(dict(f="lquality", o=0, **c28.feats(r)))
                    elif kind == "mapper":
                        ops.append(dict(f="quality", o=0, x=x(3), x10=x(3), xs=x(3), xe=x(3)))
                    else:
                        ops.append(dict(f="predict", o=0, x=x(3)))
            c = {"ops": ops, "prefix": g["prefix"], "times": times}
            if kind in ("manager", "api"):
                c["sigs"] = life.used(signals, ops)
            c["unparsable"] = unparsable(c)
            out.append(("drv_mgr" if kind in ("manager", "api") else "drv_map", c))
    return out


def needs(ctx):
    """Growing lengths for the stages and for whole comparisons."""
    r, out = ctx.rng, []
    rate = 16000
    for stage in ("load", "align", "global", "envelope", "xcorr", "spectrogram", "vad"):
        a = r.choice([6000, 8192, 10000])
        sizes = [[a, a], [4 * a, 4 * a], [16 * a, 16 * a]]
        if stage in ("align", "global", "xcorr"):
            sizes += [[a, 4 * a], [16 * a, a]]
        out.append(dict(stage=stage, law="length", sizes=sizes, rate=rate, base=r.choice(["speech", "noise"]), repeat=3))
    out.append(dict(stage="batch", law="length", sizes=[[k, 1] for k in (100, 400, 1600)], rate=rate, base="noise", repeat=3))
    s = 8000
    for q, top in ((opt(speech=True), 16), (opt(speech=True, radius=60, norealign=True), 16), (opt(), 16), (opt(radius=1), 16)):
        sizes = [[2 * s, 2 * s], [2 * s, 8 * s], [8 * s, 2 * s], [8 * s, 8 * s]]
        if ctx.thorough:
            sizes += [[16 * s, 16 * s], [32 * s, 8 * s]]
        out.append(dict(stage="compare", law="product", sizes=sizes, rate=s, base="speech", repeat=2, opt=q))
    return out


def batches(ctx, exe, so):
    """The program on few and on many pairs."""
    r, recs, d = ctx.rng, [], os.path.join(ctx.work, "batch")
    os.makedirs(d, exist_ok=True)
    rg = random.Random(ctx.seed)
    for name, n in (("a", 8000), ("b", 8000), ("t", 40)):
        with wave.open(os.path.join(d, name + ".wav"), "wb") as w:
            w.setnchannels(1)
            w.setsampwidth(2)
            w.setframerate(8000)
            w.writeframes(b"".join(struct.pack("<h", int(rg.gauss(0, 1500 if (i // 2800) % 2 else 20))) for i in range(n)))
    open(os.path.join(d, "junk.wav"), "w").write("not a wave file")
    for k, flags in enumerate((["--use_speech_mode", "--nouse_lattice_model"], ["--use_speech_mode", "--nouse_lattice_model", "--output_debug", os.path.join(d, "dbg.json"), "--results_csv", os.path.join(d, "out.csv")],
                               ["--use_speech_mode", "--nouse_lattice_model", "--verbose"])[:ctx.scale(2, 3)]):
        runs, ok = [], True
        for rows in (4, 44):
            b = os.path.join(d, "batch.csv")
            with open(b, "w") as f:
                f.write("reference,degraded\n")
                for i in range(rows):
                    f.write("%s,%s\n" % tuple(os.path.join(d, x) for x in [("a.wav", "b.wav"), ("a.wav", "gone.wav"), ("t.wav", "a.wav"), ("junk.wav", "a.wav")][i % 4]))
            for x in ("dbg.json", "out.csv"):
                if os.path.exists(os.path.join(d, x)):
                    os.unlink(os.path.join(d, x))
            o = os.path.join(d, "peak.json")
            p = subprocess.run(["bash", "-c", "ulimit -n 20; exec \"$@\"", "x", exe, "--batch_input_csv", b, "--similarity_to_quality_model", life.SVR] + flags,
                               env=dict(os.environ, LD_PRELOAD=so, VERIF_HELD_OUT=o), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, cwd=d)
            runs.append({"rows": rows, "peak": json.load(open(o))["peak"] if os.path.exists(o) else -1, "rc": p.returncode, "said": len(p.stdout)})
            os.path.exists(o) and os.unlink(o)
            if os.path.exists(os.path.join(d, "out.csv")):
                ok = ok and len(open(os.path.join(d, "out.csv")).read().split("\n")) == 2 + rows // 4
        ok = ok and all(x["rc"] == 0 for x in runs)
        recs.append({"in": {"flags": flags, "i": k}, "runs": runs, "files": ok})
    ctx.evals += len(recs)
    return recs


def run(ctx):
    bins = ctx.build("drv_mgr", "drv_map", "drv_res", "visqol", "held.so", "drv_wav", "drv_seg", "drv_match", "drv_align", "drv_spec", "drv_sim", "drv_matrix", "drv_cli")
    pre = {"LD_PRELOAD": bins["held.so"]}
    # 1. histories on live objects, repeated
    L = lassos(ctx)
    for d in ("drv_mgr", "drv_map"):
        cases = [c for x, c in L if x == d]
        ctx.drive_and_judge(bins[d], cases, "ResTrace", "HeldViolations", "repeated histories of live objects vs Resources.tla", timeout=120, env=pre)
    # 2. what growing inputs need
    ctx.drive_and_judge(bins["drv_res"], needs(ctx), "ResTrace", "NeedsViolations", "needs at growing lengths vs Resources.tla", timeout=200, env=pre, per=1, shards=4)
    # 3. long batches
    recs = batches(ctx, bins["visqol"], bins["held.so"])
    ctx.judge("ResTrace", "BatchMemoryViolations", recs, lambda idx: [x for i, x in enumerate(batches(ctx, bins["visqol"], bins["held.so"])) if i in idx], "batches vs Resources.tla")
    # 4. behaviours of the other specifications: each returns to the state it began in
    n = ctx.scale(120, 1500)
    todo = []
    for pid in ("C02", "C06", "C07", "C12", "C13", "C14", "C16", "C19", "C20", "C24", "C25", "C27", "C28", "C29", "C30"):
        todo += [(pid, x) for x in behaviours(ctx, pid, n)]
    for pid, (exe, cases, kw) in todo:
        cases = [dict(c, unparsable=unparsable(c)) for c in cases]
        ctx.drive_and_judge(bins[exe], cases, "ResTrace", "HeldViolations", "what behaviours of %s leave held" % pid, timeout=kw["timeout"] or 60,
                            env=dict(kw.get("env") or {}, VERIF_HELD="6", **pre), args=kw.get("args") or ())
    # 5. the same behaviours where any access out of bounds ends the process
    asan = ctx.build(*sorted({x[0] for _, x in todo} | {"drv_mgr"}), flavour="_asan")
    env = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1", "UBSAN_OPTIONS": "halt_on_error=1"}
    for pid, (exe, cases, kw) in todo:
        ctx.drive_and_judge(asan[exe], cases, "ResTrace", "SafeViolations", "behaviours of %s, every access checked" % pid, timeout=4 * (kw["timeout"] or 60),
                            env=dict(kw.get("env") or {}, **env), args=kw.get("args") or ())
    cases = [dict(c, times=1) for x, c in L if x == "drv_mgr"]
    ctx.drive_and_judge(asan["drv_mgr"], ctx.rng.sample(cases, min(len(cases), ctx.scale(60, 600))), "ResTrace", "SafeViolations", "comparisons, every access checked",
                        timeout=240, env=env)
