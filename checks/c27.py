"""C27: support-vector models load or fail cleanly, and predict consistently (spec/Mapping.tla)."""
import json
import os

import vp

REPO_MODELS = ["model/libsvm_nu_svr_model.txt", "model/tcdaudio14_aacvopus_coresv_svrnsim_n.68_g.01_c1.model", "model/tcdvoip_nu.568_c5.31474325639_g3.17773760038_model.txt"]


def parse(text):
    """The numbers of a libsvm model file."""
    head, body = text.split("\nSV\n")
    h = dict(l.split(" ", 1) for l in head.splitlines())
    if h["kernel_type"].strip() != "rbf":
        return None
    coef, sv = [], []
    for l in body.splitlines():
        t = l.split()
        if not t:
            continue
        coef.append(t[0])
        v = {int(a): b for a, b in (x.split(":") for x in t[1:])}
        sv.append([v.get(i, "0") for i in range(1, max(v, default=0) + 1)])
    return {"gamma": h["gamma"].strip(), "rho": h["rho"].strip(), "coef": coef, "sv": sv}


def model_text(r, n_sv, n_feat, kind="nu_svr"):
    rows = []
    for _ in range(n_sv):
        fs = [(i + 1, round(r.uniform(-1, 1.5), 4)) for i in range(n_feat) if r.random() < .8]
        rows.append("%s %s " % (round(r.uniform(-4, 4), 4), " ".join("%d:%s" % f for f in fs)))
    return "svm_type %s\nkernel_type rbf\ngamma %s\nnr_class 2\ntotal_sv %d\nrho %s\nSV\n%s\n" % (
        kind, r.choice(["0.01", "0.5", "2", "0.125"] if n_feat < 9 else ["0.01", "0.004", "0.001"]), n_sv, round(r.uniform(-4.5, 1), 3), "\n".join(rows))


BAD = [dict(path="nowhere/absent.txt"), dict(path="/"), dict(path="empty", text=""), dict(path="junk", text="hello world\n1 2 3\n"),
       dict(path="wav", text="RIFF\x01\x02\x03WAVEfmt data"), dict(path="half", text="svm_type nu_svr\nkernel_type nosuch\n"),
       dict(path="kind", text="svm_type no_such_svr\nkernel_type rbf\ngamma 1\nnr_class 2\ntotal_sv 0\nrho 0\nSV\n"), dict(path="")]


class Hist:
    def __init__(self, ctx, models, files):
        self.r, self.models, self.files, self.ops = ctx.rng, models, files, []
        self.held = {}

    def x(self, n=None):
        r = self.r
        n = n or r.choice([1, 2, 3, 5, 8])
        k = r.random()
        if k < .15:
            return ["0"] * n
        if k < .3:
            return ["1"] * n
        return [repr(round(r.uniform(-.5, 1.2), 5)) if r.random() < .85 else "0" for _ in range(n)]

    def load(self, o, f="load", k=None):
        r = self.r
        k = r.randrange(len(self.files)) if k is None else k - 1
        d = dict(f=f, o=o, file=k + 1, again=r.random() < .3, **self.files[k])
        if r.random() < .2:
            d.update(file=0, **r.choice(BAD))
            if "text" in self.files[k] and "text" not in d:
                d.pop("text", None)
            b = [b for b in BAD if b["path"] == d["path"]][0]
            if "text" not in b:
                d.pop("text", None)
        self.ops.append(d)
        self.held[o] = ("file", len(self.models[k]["sv"][0]) if False else k) if d["file"] else None

    def bad(self, o, f="load"):
        d = dict(f=f, o=o, file=0, **self.r.choice(BAD))
        self.ops.append(d)
        self.held[o] = None

    def train(self, o):
        r = self.r
        n, k = r.randint(2, 12) if r.random() < .9 else r.choice([33, 50, 70, 101]), r.choice([1, 2, 3, 4, 5, 9, 10, 11, 16, 32])
        obs = [self.x(k) for _ in range(n)]
        self.ops.append(dict(f="train", o=o, set=len(self.ops) + 1, again=r.random() < .3, obs=obs,
                             targets=[repr(round(r.uniform(1, 5), 3)) for _ in range(n)],
                             param={"C": "0.4", "nu": "0.6", "eps": "0.001", "gamma": repr(1.0 / k)}))
        self.held[o] = ("train", k)

    def ask(self, o, f="predict"):
        r = self.r
        h = self.held[o]
        n = h[1] if h[0] == "train" else max(len(s) for s in self.models[h[1]]["sv"]) or 1
        if r.random() < .25:
            n = max(1, n + r.choice([-1, 1, 2]))
        d = dict(f=f, o=o, x=self.x(n))
        if f == "quality":
            d.update(x10=self.x(n), xs=self.x(n), xe=self.x(n))
        self.ops.append(d)


def run(ctx):
    drv = ctx.build("drv_map")["drv_map"]
    r = ctx.rng
    inv = ["OwnHistoryOnly", "AsksAnswerable"]
    files, models = [], []
    for i in range(ctx.scale(24, 120)):
        t = model_text(r, r.randint(1, 6), r.randint(1, 6) if i % 4 else [40, 10, 33, 70, 11, 130][i // 4 % 6], r.choice(["nu_svr", "epsilon_svr"]))
        m = parse(t)
        files.append({"path": "model%d" % i, "text": t})
        models.append(m)
    small = len(files)
    for p in REPO_MODELS:
        p = os.path.join(vp.REPO, p)
        if os.path.exists(p):
            m = parse(open(p).read())
            if m:
                files.append({"path": p})
                models.append(m)
    mp = os.path.join(ctx.work, "models.json")
    json.dump(models, open(mp, "w"))
    cases = []
    # every short history of the machine
    for kind, n in (("svr", ctx.scale(3, 4)), ("mapper", ctx.scale(4, 5))):
        for g in ctx.generate("MapMC", spec="Spec", consts={"MaxOps": n, "Kind": kind}, invariants=inv + ["Case"],
                              what="MapMC %s histories of %d operations" % (kind, n)):
            if not ctx.thorough and r.random() < .5:
                continue
            h = Hist(ctx, models[:small], files[:small])
            ids = r.sample(range(1, small + 1), 2)
            for o in g["ops"]:
                if o["f"] in ("load", "mapper"):
                    if o["file"]:
                        k = ids[o["file"] - 1]
                        h.ops.append(dict(f=o["f"], o=o["o"], file=k, **files[k - 1]))
                        h.held[o["o"]] = ("file", k - 1)
                    else:
                        h.bad(o["o"], o["f"])
                elif o["f"] == "train":
                    h.train(o["o"])
                elif o["f"] in ("predict", "quality"):
                    h.ask(o["o"], o["f"])
                else:
                    h.ops.append(dict(f=o["f"], o=o["o"]))
                    h.held[o["o"]] = None
            cases.append({"ops": h.ops})
    for _ in range(ctx.scale(250, 3000)):
        h = Hist(ctx, models[:small], files[:small])
        m = r.random() < .4
        for _ in range(r.randint(3, 12)):
            o = r.randrange(4)
            if h.held.get(o) and r.random() < .7:
                h.ask(o, "quality" if m else "predict")
            elif m:
                h.load(o, "mapper")
            elif r.random() < .5:
                h.load(o)
            else:
                h.train(o)
        cases.append({"ops": h.ops})
    # the bundled models
    for i in range(small, len(files)):
        for q in range(ctx.scale(6, 60)):
            n = max(len(s) for s in models[i]["sv"])
            f, a = r.choice([("load", "predict"), ("mapper", "quality")])
            ops = [dict(f=f, o=0, file=i + 1, **files[i])]
            for _ in range(3):
                x = [repr(round(max(0, min(1, r.gauss(r.choice([.3, .7, .95, 1]), .15))), 6)) for _ in range(n)]
                ops.append(dict(f=a, o=0, x=x, x10=x, xs=x, xe=x))
            cases.append({"ops": ops})
    # training data files
    for _ in range(ctx.scale(60, 600)):
        d = r.choice([",", ";", " "])
        rows = [[repr(round(r.uniform(-3, 3), r.randint(0, 8))) for _ in range(r.randint(1, 6))] for _ in range(r.randint(1, 6))]
        text = "\n".join(d.join(x) for x in rows) + r.choice(["", "\n"])
        cases.append({"ops": [dict(f="read", o=0, path="data.txt", text=text, delim=d, rows=rows)]})
    ctx.drive_and_judge(drv, cases, "MapTrace", "MapViolations", "histories vs Mapping.tla", jenv={"MODELS": mp})
    ctx.assumptions.append("libsvm's own loader and solver are correct on well-formed input")
